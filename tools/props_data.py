prop("C01", "Data buffers hold what was written and are recycled exactly once",
 "A buffer obtained from the buffer factory reads back, at every element type and offset inside it, exactly the bytes last written to it, and two live buffers never share storage. "
 "A buffer stays valid for as long as references to it are outstanding, is handed back exactly once when the last reference goes, and a fresh or recycled buffer has the requested size, one reference, no latency and no destination. "
 "A copy of a buffer has the same size and contents and is independent of the original.",
 ["histories", "inputs"],
 "all sequences of allocate, typed and raw reads and writes, copy, take and drop reference, recycle and clear, for all sizes, element types and offsets",
 "The unit tests allocate and recycle a handful of buffers in one fixed order; reuse, aliasing and reference mistakes need a history, and typed access needs every type and offset.",
 [G+"data_buffer.h", G+"data_buffer.cc", G+"ref_count.h", G+"type_helpers.h"],
 [("size-indexed free lists", G+"data_buffer.cc"), ("reference count", G+"ref_count.h"), ("typed views of the raw bytes", G+"data_buffer.h")],
 "stateful model-based testing (byte-array model of every live buffer, AddressSanitizer)",
 "Histories of buffer operations against a byte-exact model.", ["DataBufferFactory", "DataBuffer"])
prop("C02", "Delayed writes take effect in exactly the cycle their latency says",
 "A value, function or data buffer submitted with latency n to a delay line takes effect at exactly the n-th advance after its submission, exactly once, and never if the line is destroyed first. "
 "Items due at the same advance take effect in the order they were submitted, whatever mixture of latencies, line growth and submissions made while the line advances came before. "
 "A buffer submitted with latency 0 takes effect at once, the count of items still in flight is always exact, and every reference taken while in flight is given back.",
 ["histories", "inputs"],
 "all interleavings of submissions (including from within delivery) and advances, all latencies below, at and above the current depth",
 "Tests submit a few items with small latencies; wrap-around, growth while wrapped, re-entrancy and ordering need long mixed histories.",
 [G+"delay_line.h", G+"delay_line_interface.h", G+"function_delay_line.h", G+"data_buffer.h", G+"arch_state.cc", G+"arch_state.h"],
 [("circular list of lists", G+"delay_line.h"), ("DataBuffer::Submit", G+"data_buffer.h"), ("advance of all lines", G+"arch_state.cc")],
 "stateful model-based testing (multimap of due cycles as model)",
 "Histories of submissions and advances against a due-time model.", ["DelayLine", "FunctionDelayLine", "DataBufferDelayLine", "ArchState::AdvanceDelayLines"])
prop("C03", "Registers and their operands read back what was last committed",
 "Reading a register through any source operand, at any element index and type, yields the value of the most recently committed write converted to that type, and writes through destination operands become visible only when their buffer commits. "
 "A status register reads as exactly its hooked bits whatever is written to it, a control register shows only what its write hook stored, a reserved register frees its resource exactly when a write commits, a null destination ignores writes, and shapes, names and copies given out by operands describe the register. "
 "No register operation leaks, loses or over-releases a reference to a buffer.",
 ["histories", "inputs", "configurations"],
 "all register kinds, element types, vector and matrix shapes, and histories of writes, submissions, commits and reads",
 "Tests use a few fixed shapes and values; the type/shape/history product is not sampled.",
 [G+"register.h", G+"register.cc", G+"state_item.h", G+"state_item_base.cc", G+"status_register.h", G+"control_register.h", G+"control_register.cc", G+"devnull_operand.h", G+"wrapper_operand.h", G+"operand_interface.h"],
 [("state item buffer replacement", G+"state_item_base.cc"), ("register operands", G+"register.h"), ("status bits", G+"status_register.h")],
 "stateful model-based testing (register file model)",
 "Histories of register operations against a reference register file.", ["Register", "VectorRegister", "MatrixRegister", "StatusRegister", "ControlRegister"])
prop("C04", "Immediate and literal operands yield their value in every type",
 "An immediate or literal operand yields, for every element index and every integer width and signedness, the value it was built with under the C++ integral conversion to that width. "
 "A vector immediate yields the element asked for, and shape and text form describe the operand as constructed.",
 ["inputs"],
 "all values, element types, vector lengths, indices and access widths",
 "Tests try one or two small values per type, where truncation and sign-extension mistakes do not show.",
 [G+"immediate_operand.h", G+"literal_operand.h", G+"operand_interface.h"],
 [("conversion in accessors", G+"immediate_operand.h"), ("compile-time literals", G+"literal_operand.h")],
 "property-based testing (integral conversion as oracle)",
 "Random and boundary values at every type and width.", ["ImmediateOperand", "VectorImmediateOperand", "IntLiteralOperand", "BoolLiteralOperand"])
prop("C05", "Fifos deliver every accepted element once, in order, within capacity",
 "A fifo delivers each element it accepted exactly once and in the order accepted, never holds more elements and reservations than its capacity, and reports empty, full, overflow and underflow exactly when they occur. "
 "Reserved slots are kept for the pusher that reserved them, and a refused push or pop changes nothing but the error reported. "
 "Fifos sharing tokens never hold more elements in total than there are tokens, and notifications are given exactly at the empty and full transitions.",
 ["histories", "configurations"],
 "all sequences of reserve, push (directly or through operands with latency), pop, front and depth configuration, over plain, token and notifying fifos",
 "Tests run a single fill-and-drain; capacity, reservation and token accounting errors appear after mixed histories.",
 [G+"fifo.h", G+"fifo.cc", G+"token_fifo.h", G+"token_fifo.cc", G+"fifo_with_notify.h"],
 [("capacity and reservations", G+"fifo.cc"), ("token store", G+"token_fifo.cc"), ("transition callbacks", G+"fifo_with_notify.h")],
 "stateful model-based testing (queue and token-count model)",
 "Histories against a queue model.", ["Fifo", "TokenFifo", "FifoWithNotify"])
prop("C06", "Program errors are seen exactly while raised and unmasked",
 "After any history of adding, raising, masking, unmasking and clearing program errors, the controller reports an unmasked (masked) error exactly when some error that is unmasked (masked) has been raised and not cleared, and lists exactly those. "
 "Raising an unknown error, or adding one twice, is reported as specified rather than lost, and the messages of a raised error are kept in order until it is cleared.",
 ["histories"],
 "all histories over several errors",
 "Tests walk one error through one fixed sequence.",
 [G+"program_error.h", G+"program_error.cc"],
 [("masked and unmasked sets", G+"program_error.cc")],
 "stateful model-based testing (set model)", "Histories against a set model.", ["ProgramErrorController"])
prop("C07", "Component trees export and import configuration and counters faithfully",
 "Exporting a component tree lists every counter, configuration entry and child exactly once with its current value, and importing such data changes exactly the entries that are present, match in name and type and may be imported, reporting an error otherwise. "
 "An exported configuration imported into an equal tree restores the same values, each change calling its callbacks exactly once. "
 "Counters change only while enabled and by the amounts given.",
 ["histories", "inputs", "configurations"],
 "all trees, names, value types, import messages and counter histories",
 "Tests use one small tree with fixed values.",
 [G+"component.h", G+"component.cc", G+"config.h", G+"counters.h", G+"counters_base.h", "mpact/sim/proto/component_data.proto"],
 [("recursive import and export", G+"component.cc"), ("typed proto conversion", G+"config.h"), ("counter enable", G+"counters.h")],
 "model-based testing and export/import round trip",
 "Random trees and messages against a model tree.", ["Component::Export", "Component::Import"])
prop("C08", "Simple resources are busy exactly while somebody holds them",
 "A set of resources is free exactly when none of its members is held, and acquiring and releasing sets changes exactly their members, for pools of any width. "
 "A resource acquired through an operand with a latency becomes free again in exactly the cycle the latency says. "
 "Set algebra on resource sets (and, or, and-not, test, compare) agrees with mathematical sets, whatever the sizes of the operands.",
 ["histories", "inputs", "configurations"],
 "all pool widths, sets, latencies and acquire/release/advance histories",
 "Tests use one pool of 32 resources; word boundaries, unequal sizes and overlaps with latency are not sampled.",
 [G+"resource_bitset.h", G+"simple_resource.h", G+"simple_resource.cc", G+"simple_resource_operand.h", G+"resource_bitset.cc"],
 [("bit vector", G+"resource_bitset.h"), ("pool", G+"simple_resource.cc"), ("release through a delay line", G+"simple_resource_operand.h")],
 "stateful model-based testing (std::set model)", "Histories and set algebra against std::set.", ["ResourceBitSet", "SimpleResourcePool", "SimpleResourceDestinationOperand"])
prop("C09", "Cycle-reserved resources are busy exactly in the cycles reserved",
 "A resource reserved for a set of future cycles is reported busy in exactly those cycles, relative to the cycle the reservation was made in, until they pass or are released. "
 "Reservations, queries and releases for spans longer or shorter than the tracked window affect exactly the cycles that lie inside it. "
 "Describing a range or set of cycles that does not fit the window is refused and changes nothing.",
 ["histories", "inputs", "configurations"],
 "all window depths, cycle sets and histories of reserve, query, release and advance (two exact histories are recorded as known findings)",
 "Tests use a few masks on windows of 64, 234 and 256 cycles, always starting at cycle 0.",
 [G+"complex_resource.h", G+"complex_resource.cc", G+"complex_resource_operand.h", G+"complex_resource_operand.cc"],
 [("shifted bit window", G+"complex_resource.cc"), ("cycle masks", G+"complex_resource_operand.cc")],
 "stateful model-based testing (set of absolute busy cycles)", "Histories against a set of absolute cycles.", ["ComplexResource", "ComplexResourceOperand"])
D = "mpact/sim/decoder/"
prop("C10", "The decode cache never returns a stale or wrong instruction",
 "A decode cache lookup of an address yields an instruction decoded for exactly that address, from a decode done since the address was last invalidated, or nothing when the decoder cannot decode it; an address that was looked up and since neither displaced nor invalidated is not decoded again. "
 "Invalidating an address, a range of addresses or everything affects every cached instruction whose address lies in it and no other. "
 "Each cached instruction is held for exactly as long as it is cached, and a bad cache size or pc increment is refused or corrected, never fatal.",
 ["histories", "configurations"],
 "all cache sizes, pc increments, and histories of lookup, invalidate (one, range, all) and change of what decodes at an address",
 "The unit test fills a small cache once; aliasing, range wrap-around and lifetime mistakes depend on cache size, addresses and history.",
 [G+"decode_cache.h", G+"decode_cache.cc"],
 [("direct mapped index", G+"decode_cache.cc"), ("InvalidateRange", G+"decode_cache.cc")],
 "stateful model-based testing (direct-mapped cache model with decode counting)", "Histories against a model of a direct-mapped cache.", ["DecodeCache"])
prop("C11", "Instructions own, chain and execute their parts exactly once, in order",
 "An instruction built from any chain of next and child instructions, operands, resources, attributes and predicate gives back exactly those, keeps them alive for exactly as long as it or a holder of a reference lives, and frees each exactly once. "
 "Executing it runs its semantic function with the context given, visible only during the execution, nested executions included, and keeps no reference to the context afterwards. "
 "The typed source helpers convert each operand element as the operand interface documents, and the unary, binary and vector helpers compute the given function element by element into the destination and commit it with its latency.",
 ["histories", "inputs"],
 "all instruction trees, append orders, reference histories, operand values and element types",
 "Tests build one tree; ownership errors need appends, chains and reference drops in unusual orders, and typed helpers need every type.",
 [G+"instruction.h", G+"instruction.cc", G+"instruction_helpers.h"],
 [("append and free", G+"instruction.cc"), ("typed accessors", G+"instruction_helpers.h")],
 "stateful model-based testing (tree model, lifetime counting) and property-based testing of the helpers",
 "Histories of tree building and reference changes against a model; random operands for the helpers.", ["Instruction", "GetInstructionSource", "BinaryOp", "BinaryVectorOp"])
prop("C12", "Action points fire exactly when enabled and breakpoints mirror memory",
 "After any history of setting, clearing, enabling and disabling action points and breakpoints, reaching an address runs exactly the enabled actions set there, each once, with that address and their own id, and a halting breakpoint halts and is recorded. "
 "The program memory holds a breakpoint instruction at exactly the addresses that have at least one enabled action, also when memory refuses a write, in which case the operation reports the error. "
 "Identifiers are unique per address, and operations on unknown ones report not-found and change nothing.",
 ["histories", "fault_sequences"],
 "all histories of set, clear, enable, disable, clear-all and reach over several addresses, with memory write failures at any point",
 "There is no unit test for these classes, and their memory/state agreement depends on the history.",
 [G+"action_point_manager_base.h", G+"action_point_manager_base.cc", G+"breakpoint_manager.h", G+"breakpoint_manager.cc"],
 [("enabled count per address", G+"action_point_manager_base.cc"), ("breakpoint table", G+"breakpoint_manager.cc")],
 "stateful model-based testing with fault injection (memory refusing writes)", "Histories with injected write failures against a model.", ["ActionPointManagerBase", "BreakpointManager"])
prop("C13", "Numeric type traits classify and convert every bit pattern correctly",
 "For every bit pattern of the half, single and double formats, the floating point type information reports infinity, quiet and signalling NaN and sign as the IEEE-754 encoding defines them, and its masks and sizes describe that format. "
 "Converting a half to single or to text gives its exact value. "
 "The wide, narrow, signed and unsigned type maps give types in which products and round trips are exact, and describe every integer type the same way.",
 ["inputs"], "all bit patterns of every format, all integer types and values",
 "Tests look at a few values of a few types; classification errors hide in single bit patterns.",
 [G+"type_helpers.h", G+"signed_type.h", G+"variant_helper.h"],
 [("FPTypeInfo", G+"type_helpers.h"), ("HalfFP to float", G+"type_helpers.h"), ("WideType/NarrowType", G+"type_helpers.h")],
 "property-based testing (IEEE-754 decoder as oracle); all 65536 halves", "Random and boundary bit patterns; every half is visited.", ["FPTypeInfo", "HalfFP", "WideType"])
prop("C14", "Bit extraction recipes select exactly the bits of their mask",
 "For every 64 bit mask the extraction recipe computed for it, applied to any value, yields the bits of the value under the mask, packed towards bit 0 in their order, and uses one step per run of ones. "
 "The C++ code written for a recipe computes the same result, without touching its input.",
 ["inputs"], "all masks and values", "The unit test tries a handful of masks.",
 [D+"extract.h", D+"extract.cc"],
 [("GetExtractionRecipe", D+"extract.cc"), ("WriteExtraction", D+"extract.cc")],
 "property-based testing (bit-by-bit gather as oracle; written code run by an interpreter)", "Random masks and values; generated text is executed.", ["GetExtractionRecipe", "ExtractValue", "WriteExtraction"])
prop("C15", "Template expressions evaluate to their arithmetic value or an error",
 "Evaluating a template expression yields the value of the integer arithmetic and functions it spells under the given arguments, or an error exactly when an operand has none or a division by zero occurs, never a crash. "
 "It is constant exactly when it depends on no parameter, substituting arguments into a copy or partial evaluation gives the same value as into the original, and the original is unchanged. "
 "No evaluation or copy leaks or frees twice any part of an expression.",
 ["inputs"], "all expression trees and argument lists, present, absent or themselves parametric",
 "Tests cover one operator at a time on constants.",
 [D+"template_expression.h", D+"template_expression.cc"],
 [("Evaluate", D+"template_expression.cc"), ("operators on values", D+"template_expression.cc")],
 "property-based testing (independent evaluator of the same tree, node counting)", "Random trees and arguments against an independent evaluator.", ["TemplateExpression::GetValue", "Evaluate", "DeepCopy"])
prop("C16", "Generated names are well formed, and each resource name is one resource",
 "Converting an identifier to PascalCase, snake_case, lower case or a header guard changes it exactly as those conventions say, and snake_case and PascalCase of a canonical name convert back to it. "
 "The resource registry hands out one object per name, the same for every later request of the name, refuses to create a name twice, and keeps each resource's flags.",
 ["inputs", "histories"], "all strings, and all histories of creation, lookup and flag setting",
 "Tests convert a few names.",
 [D+"format_name.h", D+"format_name.cc", D+"resource.h", D+"resource.cc"],
 [("name conversions", D+"format_name.cc"), ("ResourceFactory", D+"resource.cc")],
 "property-based testing (round trip, independent definition) and model-based testing of the registry", "Random strings and registry histories.", ["ToPascalCase", "ToSnakeCase", "ToHeaderGuard", "ResourceFactory"])
U = "mpact/sim/util/"
M = U+"memory/"
prop("C17", "Flat memories return exactly the last bytes stored at every address",
 "After any history of scalar, gather/scatter and unit stride vector loads and stores, a load from a flat or demand-allocated memory returns, for every byte, the value last stored at that address and unit, or the fill value, and masked-off elements touch neither memory nor buffer. "
 "Base, size, addressable unit, block boundaries and the order of accesses make no difference. "
 "A load executes its instruction exactly once, with its context, after the latency of the buffer, and neither leaks nor prematurely drops any reference.",
 ["histories", "configurations"],
 "all histories of loads and stores of all kinds and sizes, over all bases, sizes, addressable units and fill values",
 "Tests store and load at a few aligned addresses with byte units.",
 [M+"flat_memory.h", M+"flat_memory.cc", M+"flat_demand_memory.h", M+"flat_demand_memory.cc"],
 [("demand block allocation", M+"flat_demand_memory.cc"), ("vector element spacing", M+"flat_memory.cc")],
 "stateful model-based testing (byte map as reference memory)", "Histories against a byte map; final sweep of all bytes.", ["MemoryInterface::Load", "MemoryInterface::Store"])
prop("C18", "Tagged memory keeps one tag per granule and never forges or keeps a stale one",
 "After any history of tagged and untagged accesses, a tagged load returns for each granule the tag of the last store that covered any byte of it: the stored tag for a tagged store, no tag for an untagged one, and the data as in untagged memory. "
 "Refused tagged accesses (misaligned, wrong sizes) have no effect. "
 "Through the tagged-to-untagged transactor data accesses behave as on the memory behind it and all tags read as zero, with instructions executed exactly once.",
 ["histories", "configurations"],
 "all histories of tagged, untagged, vector and tag-only accesses, over all granules, bases and sizes",
 "A forged or stale tag (a security property on CHERI machines) needs a particular overlap of an untagged store with a tagged granule.",
 [M+"tagged_flat_demand_memory.h", M+"tagged_flat_demand_memory.cc", M+"tagged_to_untagged_memory_transactor.cc"],
 [("ClearTags", M+"tagged_flat_demand_memory.cc"), ("transactor", M+"tagged_to_untagged_memory_transactor.cc")],
 "stateful model-based testing (byte map and tag map)", "Histories against a byte map and a tag map; final sweep of both.", ["TaggedMemoryInterface::Load", "TaggedMemoryInterface::Store"])
prop("C19", "Watchpoints fire exactly for the accesses which touch their range",
 "For every history of setting and clearing load and store watch ranges and of accesses of every kind, a callback is invoked exactly when an access (each unmasked element of a vector access) of its kind overlaps its range, with the address and size of that access. "
 "Overlapping ranges of a kind are refused and change nothing, clearing needs an address of the range, and watching changes no data, tag, latency or instruction of the access.",
 ["histories"], "all histories of watch ranges and accesses, including adjacent, one byte and 64-bit boundary ranges",
 "Tests place a few ranges and accesses; off-by-one overlaps and vector elements need systematic neighbourhoods.",
 [M+"memory_watcher.h", M+"memory_watcher.cc", M+"tagged_memory_watcher.h", M+"tagged_memory_watcher.cc"],
 [("range map", M+"memory_watcher.cc"), ("range map", M+"tagged_memory_watcher.cc")],
 "stateful model-based testing (list of ranges as reference)", "Histories of ranges and accesses; the multiset of callbacks is compared.", ["SetLoadWatchCallback", "SetStoreWatchCallback"])
prop("C20", "Atomic operations read, modify and write once; links break on any store",
 "An atomic operation returns the old value of its location and leaves the documented function of old value and operand there, for every size and value, executing the instruction once. "
 "A store conditional succeeds exactly when its location was load-linked and nothing was stored to it, by any kind of store, since; otherwise it stores nothing, and either way it reports which. "
 "Operations of sizes that do not exist are refused without effect, and tags of tagged memory follow the stores.",
 ["histories", "inputs"], "all histories of load linked, store conditional, atomic operations and ordinary accesses, all operand values",
 "Whether a link survives depends on the history of every kind of store to its neighbourhood.",
 [M+"atomic_memory.h", M+"atomic_memory.cc", M+"atomic_tagged_memory.h", M+"atomic_tagged_memory.cc"],
 [("link set", M+"atomic_memory.cc"), ("link set", M+"atomic_tagged_memory.cc")],
 "stateful model-based testing (byte map, set of linked locations, 64-bit arithmetic oracle)", "Histories against a reference of values and links.", ["PerformMemoryOp"])
prop("C21", "Routers deliver each access to the one target mapped at all of it",
 "An access whose bytes all lie in the range mapped to a target is delivered once, unchanged, to that target; one that touches no range goes to the default target of its kind, if any; one that is only partly in a range, or a vector access whose elements belong to different targets, is delivered to none. "
 "Plain accesses consider memory targets before tagged ones, and unmapped atomic operations report not-found. "
 "Mapping refuses overlapping or inverted ranges, unknown names and duplicate target names, without effect, and initiators of one name share their mappings while others are independent.",
 ["histories", "inputs", "configurations"], "all sets of ranges up to the top of the address space, all accesses near their ends, all histories of naming and mapping",
 "Tests use a couple of ranges and accesses well inside them.",
 [M+"single_initiator_router.h", M+"single_initiator_router.cc", M+"memory_router.h", M+"memory_router.cc"],
 [("range lookup", M+"single_initiator_router.cc"), ("name maps", M+"memory_router.cc")],
 "stateful model-based testing (recording targets; linear search of ranges as oracle)", "Random range maps and accesses around their ends, against recording targets.", ["SingleInitiatorRouter", "MemoryRouter"])
prop("C22", "The cache counts as an LRU set-associative cache and changes no access",
 "For every configuration and access history the hit, miss, write-back, write-around and non-cacheable counters equal those of a set-associative cache with least recently used replacement, looked up once per block touched by each unmasked element. "
 "A configuration that is not well formed is refused, never a crash, and leaves the one in effect untouched; a new one starts empty. "
 "Data, tags, latencies and instructions of loads and stores are those of the memory behind it.",
 ["configurations", "histories"], "all well and ill formed configuration strings, all access histories of every kind",
 "Tests stream through a direct mapped cache; replacement, dirty state and reconfiguration depend on history.",
 [M+"cache.h", M+"cache.cc"], [("CacheLookup", M+"cache.cc"), ("ReplaceBlock", M+"cache.cc"), ("Configure", M+"cache.cc")],
 "stateful model-based testing (reference cache by linear search)", "Histories against a reference cache; stops a case where two lines are equally old.", ["Cache counters", "Cache::Configure"])
prop("C23", "The memory use profile is exactly the set of words accessed",
 "After any history of accesses, with profiling switched on and off at any time, the profile lists, as maximal ranges in address order, exactly the words containing a byte of an access of at most 8 bytes made while it was on. "
 "Segment boundaries, address 0 and the top of the address space make no difference, and profiling changes no access.",
 ["histories"], "all access histories and switch points, over all segments",
 "There is no test of the profiler; boundary words need particular addresses.",
 [M+"memory_use_profiler.h", M+"memory_use_profiler.cc"], [("MarkUsed", M+"memory_use_profiler.cc"), ("WriteUseProfile", M+"memory_use_profiler.cc")],
 "stateful model-based testing (set of words as reference)", "Histories against a set of words, plus dense runs over several segments.", ["WriteProfile"])
prop("C24", "Memories compose: any stack of wrappers behaves like the memory below",
 "Through any stack of watchers, atomic memories, use profilers, caches, transactors and routers, in any order and depth, every load and store of every kind has the effect it would have on the memory at the bottom, which holds exactly the bytes and tags stored. "
 "The instruction of a load is executed once, with its context, after the latency of the load, whatever the depth, and no buffer, instruction or context is leaked or freed early.",
 ["configurations", "histories"], "all stacks of wrappers and all access histories through them",
 "Tests exercise each wrapper alone, on a plain memory, mostly without latency.",
 [M+"memory_interface.h", M+"tagged_memory_interface.h", M+"cache.cc", M+"memory_watcher.cc", M+"tagged_memory_watcher.cc", M+"single_initiator_router.cc", M+"atomic_memory.cc", M+"atomic_tagged_memory.cc"],
 [("load completion", M+"cache.cc"), ("forwarding", M+"memory_watcher.cc")],
 "differential / metamorphic testing over generated stacks (byte and tag map as reference)", "Random stacks and histories.", ["MemoryInterface", "TaggedMemoryInterface"])
D = "mpact/sim/decoder/"
prop("C25", "Emitted binary decoders decode every word as the description says",
 "For every well formed .bin_fmt description of formats up to 64 bits, the emitted code compiles and each emitted Decode function, for every instruction word, returns the opcode of an instruction whose constraints the word satisfies - the most specific one, for specializations - and kNone when there is none. "
 "When the constraints of exactly one instruction hold, it is that one, whatever the group structure, formats, overlays, includes, generators or number notation used to write the description. "
 "The format given back is the one declared for the instruction.",
 ["programs", "inputs"], "all well formed descriptions (formats, overlays, constraints, specializations, combined groups, generators, includes) and all instruction words",
 "Tests compare parts of the encoding tables of a few descriptions, and never compile or run the emitted code.",
 [D+"bin_format_visitor.cc", D+"bin_decoder.cc", D+"instruction_group.cc", D+"encoding_group.cc", D+"instruction_encoding.cc", D+"overlay.cc", D+"format.cc", D+"extract.cc", D+"BinFormat.g4"],
 [("discriminator selection", D+"encoding_group.cc"), ("constraint masks", D+"instruction_encoding.cc"), ("emission", D+"bin_format_visitor.cc")],
 "grammar-based program generation; emitted code compiled, loaded and compared with direct evaluation of the constraints", "Random descriptions; each emitted decoder is compiled and run on words near every instruction and random ones.", ["emitted Decode<Group> functions"])
prop("C26", "Emitted extractors, inserters and opcode encodings match the description",
 "For every well formed .bin_fmt description of formats up to 64 bits, each emitted extractor, by function, class or byte array, yields for every word the bits the description names, in order and sign extended if signed, and each inserter sets just those bits. "
 "An extractor that a base format gets from its derived formats is right for all of them. "
 "The opcode encodings hold, for each instruction, the bits its equality constraints fix, and its width.",
 ["programs", "inputs"], "all well formed formats, fields, replicated sub-formats and overlays, and all words and values",
 "Tests look at a handful of extractors of one format and no emitted inserter is ever run.",
 [D+"format.cc", D+"overlay.cc", D+"bin_format_visitor.cc", D+"bin_encoding_info.cc", D+"instruction_encoding.cc"],
 [("GenerateFieldExtractor", D+"format.cc"), ("GenerateOverlayInserter", D+"format.cc"), ("PropagateExtractors", D+"bin_encoding_info.cc")],
 "grammar-based program generation; emitted code compiled, loaded and compared with the bits in the description", "Random formats; each emitted function is called on many words.", ["emitted Extract*, Encoder::Insert*, kOpcodeEncodings"])
prop("C28", "Emitted instruction set decoders make the instructions that are described",
 "For every well formed .isa description the emitted code compiles, and its decoder makes for each opcode of each slot instance the instruction described, after inheritance, template arguments, deletion, override and GENERATE: operands in order with their latencies, child instructions, semantic functions, disassembly text, resources to hold and acquire with their cycles, attributes, size and address. "
 "An operand or resource is asked for once, with the slot, entry, opcode and position at which it stands, and given to the instruction it belongs to. "
 "A word that is no opcode of the slot gives the default opcode of the slot.",
 ["programs", "inputs"],
 "all well formed descriptions (slots, inheritance, template parameters, constants, defaults, named resources, overrides, generators, files, includes; generator versions 1 and 2) and all opcodes",
 "Tests compare parts of the emitted text of two descriptions, and run the emitted decoder for a few opcodes of one.",
 [D+"instruction_set_visitor.cc", D+"instruction_set.cc", D+"slot.cc", D+"opcode.cc", D+"instruction.cc", D+"resource.cc", D+"template_expression.cc", D+"InstructionSet.g4"],
 [("emission of setters", D+"slot.cc"), ("inheritance and overrides", D+"instruction_set_visitor.cc"), ("derived instructions", D+"instruction.cc")],
 "grammar-based program generation; emitted code compiled, run and compared with a direct elaboration of the description",
 "Random descriptions; each emitted decoder is compiled and every opcode of every slot is decoded and executed.", ["emitted InstructionSet::Decode"])
prop("C27", "The gdb server answers every packet once, truthfully, and survives its client",
 "Each packet with a right checksum is acknowledged (unless no-ack mode is on) and answered by exactly one well formed response, repeated while the client refuses it up to five times; one with a wrong checksum is refused and has no effect. "
 "Memory, register, breakpoint, step, continue and query commands have exactly the documented effect on, and report the true state of, the core; a malformed command or a failure of the core is answered by an error and changes nothing. "
 "Whatever bytes the client sends and whenever it goes away, the server touches no memory beyond its own, ends the connection exactly on detach, kill, disconnection or protocol failure, closes each descriptor exactly once, and can be connected to again.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of packets, valid, malformed, escaped, corrupted, refused or overlong, cut at any byte, with failures of the core and of the socket calls injected, over targets with any set of registers",
 "Tests send about a dozen well formed commands over a perfect connection to a core that never fails.",
 ["mpact/sim/util/gdbserver/gdbserver.h", "mpact/sim/util/gdbserver/gdbserver.cc", G+"core_debug_interface.h", G+"debug_info.h"],
 [("packet framing and acknowledgement", "mpact/sim/util/gdbserver/gdbserver.cc"), ("command handlers", "mpact/sim/util/gdbserver/gdbserver.cc"), ("socket stream buffer", "mpact/sim/util/gdbserver/gdbserver.h")],
 "stateful model-based protocol fuzzing (simulated debugger and core, wrapped socket calls, fault injection)",
 "Generated debugging sessions in one thread: the socket calls are played by the harness.", ["GdbServer::Connect", "CoreDebugInterface"])
LD = "mpact/sim/util/program_loader/"
prop("C29", "The ELF loader puts exactly the loadable bytes in memory and tells the symbols",
 "Loading a file stores the file bytes of each loadable segment at its physical address (virtual if that is zero), executable ones in the code memory and others in the data memory, or as the memory descriptors or the debug interface given say, and writes nothing else. "
 "Symbol values, names, functions and the ranges of functions at any address, the stack size and the entry point are those in the file, or not found, for each file of several that one loader has loaded. "
 "A file that is missing, truncated or no ELF file is refused with an error and leaves the memory alone.",
 ["inputs", "histories"],
 "all ELF executables (32 and 64 bits, any segments, sections, symbol tables with overlapping, nested and equal functions) and all sequences of loads and queries",
 "Tests load one program and look up a handful of its symbols.",
 [LD+"elf_program_loader.h", LD+"elf_program_loader.cc", LD+"program_loader_interface.h"],
 [("loading of segments and symbols", LD+"elf_program_loader.cc"), ("symbol queries", LD+"elf_program_loader.cc")],
 "stateful property-based testing with generated ELF files against a reference model",
 "Generated ELF files, written byte by byte by the harness, are loaded and queried; memory images and answers are compared.", ["ElfProgramLoader"])
OT = "mpact/sim/util/other/"
prop("C30", "The instruction profile counts every sampled address in its own bucket",
 "The profile written is, for each bucket of the executable segments and of the gaps of less than 0x1000 buckets between them, the number of samples with an address in that bucket, in the order of addresses, with no line for buckets without samples. "
 "Samples outside of these ranges change no bucket, and no sample touches memory beyond the counters.",
 ["inputs", "histories"],
 "all sets of executable segments, granularities and sequences of sampled addresses, those next to the ends of segments and buckets included",
 "There are no tests of the profiler that sample near the ends of ranges or outside of them.",
 [OT+"instruction_profiler.h", OT+"instruction_profiler.cc", LD+"elf_program_loader.h"],
 [("buckets and ranges", OT+"instruction_profiler.cc")],
 "property-based testing against a reference model",
 "Random segments and samples; the written profile is compared with a map from buckets to counts.", ["InstructionProfiler"])
AS = "mpact/sim/util/asm/"
prop("C31", "The assembler makes the file that the source describes, or refuses it",
 "The text, data and bss of the executable or relocatable file made from a source are the encodings of its statements and the values of its directives, one after the other at the alignment asked for, and the file loads as such. "
 "Each symbol defined has the address at which it stands, the binding it was given, and is what every reference to it, before or after, resolves to; undefined symbols and relocations of relocatable files are those referred to. "
 "A source with a malformed line, value out of range, duplicate or unknown symbol, or failing statement is refused with an error.",
 ["programs", "inputs"],
 "all sources made of sections, labels, directives, target statements, comments and continued lines, valid or with an error at any place, for 32 and 64 bit files",
 "Tests assemble one small source and compare a few bytes of it.",
 [AS+"simple_assembler.h", AS+"simple_assembler.cc", AS+"resolver.h", AS+"resolver.cc", AS+"resolver_interface.h", AS+"opcode_assembler_interface.h"],
 [("directives and the two passes", AS+"simple_assembler.cc"), ("symbol resolution", AS+"resolver.cc")],
 "grammar-based source generation against a reference assembler; round trip through the ELF loader; fault injection",
 "Random sources with a model of what they stand for; the file is read back section by section and loaded.", ["SimpleAssembler", "SymbolResolver"])
RN = "mpact/sim/util/renode/"
prop("C32", "Renode and the command line share the core without ever colliding",
 "Of Renode and the command line interface only the one in control steps or uses the core, whatever the interleaving of their threads; the command line executes instructions only inside of the quantum that Renode has asked for, and Renode only while the command line runs or is not connected. "
 "RenodeStep returns the number of instructions executed in the call by either, all it asked for unless the program ended or the core failed; a step of the command line executes exactly its number across quanta unless halted; each request reaches the core with its arguments and returns its answer. "
 "No interleaving of steps, runs, halts, connections, program end or failure makes either wait for ever.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of a Renode thread, a command line thread and a halting thread, with breakpoints, other halts, end of the program and failures of the core at any instruction",
 "There are no tests of the arbitration, and a test would see one schedule.",
 [RN+"renode_cli_top.h", RN+"renode_cli_top.cc", RN+"cli_forwarder.h", RN+"cli_forwarder.cc"],
 [("arbitration of control", RN+"renode_cli_top.cc"), ("conditions of control", RN+"renode_cli_top.h")],
 "randomised schedule exploration under a controlled scheduler (generated histories of three threads, invariants over the history, deadlock detection)",
 "absl::Mutex is replaced by one that the harness schedules; each case is a random program for the three threads and a random schedule, both replayable.", ["RenodeCLITop", "CLIForwarder"])
prop("C33", "The Renode C interface acts on the instance named, and on nothing else",
 "Construct and connect give each simulator an id and a name of its own, connect to an id in use only adds missing bus callbacks, and destruct ends exactly that instance with all it kept. "
 "Every call acts on the instance with its id, with its arguments and within the buffers and the name length given for that instance, and reports failure for an id without instance or when the simulator fails. "
 "Step executes and reports exactly the number asked for, of any size, up to a halt, whose status it reports; an image is loaded byte for byte or reported as failed.",
 ["histories", "inputs", "fault_sequences"],
 "all sequences of calls of the C interface over instances made and destructed with any ids, all step counts of 64 bits, images of any size, simulators that fail or stop at any point",
 "There are no tests of the Renode interface.",
 [RN+"renode_mpact.h", RN+"renode_mpact.cc", RN+"renode_debug_interface.h"],
 [("C interface and agent", RN+"renode_mpact.cc")],
 "stateful model-based testing with fault injection",
 "Random calls of the C interface over simulators played by the harness, compared with a map of instances.", ["RenodeAgent", "construct", "connect", "step"])
prop("C34", "Memory mapped devices: UART and Renode bus transfer exactly the bytes accessed",
 "The UART transmits the low byte of every word stored to its transmit register while the divisor latch is not selected, in order and flushed at line ends, and nothing else; its other registers return what was stored last, or zero. "
 "The Renode bus passes each access on once, with its address and data. "
 "Every load of either executes its instruction once, at the latency of its buffer, with its context, and keeps no reference.",
 ["inputs", "histories"],
 "all sequences of loads and stores of any address, size, alignment and latency, buses that are missing or move fewer bytes",
 "There are no tests of these devices.",
 [OT+"simple_uart.h", OT+"simple_uart.cc", RN+"renode_memory_access.h", RN+"renode_memory_access.cc"],
 [("UART registers", OT+"simple_uart.cc"), ("bus accesses", RN+"renode_memory_access.cc")],
 "stateful property-based testing against reference models",
 "Random accesses over a model of the registers and a bus played by the harness.", ["SimpleUart", "RenodeMemoryAccess"])

prop("C35", "Emitted proto decoders decode every message as the description says",
 "For every proto instruction description that the generator accepts, the decoder it emits compiles, and decodes a message to the opcode of an instruction of the group all of whose constraints the message satisfies, or to none if there is no such instruction. "
 "A decoded message calls the setters of that instruction with the values of their fields, or with the default given if the field is absent, and no others. "
 "Correct descriptions are accepted; those with unknown names, values of the wrong type, contradictions or ambiguous encodings are refused without a crash.",
 ["inputs", "programs"],
 "all descriptions over two message types (nested messages, oneofs, all scalar types), all messages of these types",
 "The tests of the generator only compile two descriptions and do not run what is emitted; none of them builds here.",
 [D+"proto_format_visitor.cc", D+"proto_encoding_group.cc", D+"proto_instruction_encoding.cc", D+"proto_instruction_group.cc", D+"proto_constraint_value_set.cc", D+"proto_encoding_info.cc"],
 [("reading descriptions", D+"proto_format_visitor.cc"), ("decision trees", D+"proto_encoding_group.cc"), ("setters", D+"proto_instruction_encoding.cc"), ("value sets", D+"proto_constraint_value_set.cc")],
 "generated descriptions, compiled and run against an interpreter of the description",
 "The real generator runs on random descriptions; its output is compiled, and every message is decoded by it and by an interpreter of the constraints.", ["ProtoFormatVisitor", "ProtoEncodingGroup", "ProtoInstructionEncoding", "ProtoConstraintValueSet"])
