# ---------------------------------------------------------------- simulation flow
prop("C01", "Every component runs every phase once, in the UVM phase order",
  "In a test run, every component of the hierarchy gets exactly one call of each common phase callback, in the order build, connect, end_of_elaboration, start_of_simulation, run, extract, check, report, final, and no component enters a phase before every component has finished the previous one. Build and final visit parents before children, the other function phases visit children before parents, and a component created during build is itself built. The twelve run-time phases run in their defined order beside the run phase, each exactly once per component, between start_of_simulation and extract. Each component also sees phase_started before and phase_ended after every component's callback of a phase, exactly once (components created during build miss its phase_started), each callback is given the executing phase node of the right name and domain, is_before and is_after tell the order of the phases, and function phases take no time.",
  ["programs", "schedules"], "all component hierarchies (shape, depth, names, phase implementations) and all delays used in run-time phases",
  "The tests run a dozen fixed hierarchies and look at log text; order over arbitrary trees and delays is never checked.",
  [B+"uvm_phase.py", B+"uvm_topdown_phase.py", B+"uvm_bottomup_phase.py", B+"uvm_task_phase.py", B+"uvm_common_phases.py", B+"uvm_runtime_phases.py", B+"uvm_domain.py", B+"uvm_root.py"],
  [("phase graph with predecessor/successor edges; traverse() walks the component tree", B+"uvm_phase.py")],
  ["the phase callbacks of user components in a run_test run"])

prop("C02", "A task phase ends exactly when its objections are all dropped",
  "While any component holds an objection of a task phase, that phase does not end and no later phase starts; once the last objection is dropped and the drain times set on the objecting components have elapsed without a new objection, the phase ends at that simulation time, and the components' callbacks of that phase are stopped and never execute again (processes a callback started itself are not). A phase in which nobody objects ends without consuming simulation time; an objection raised in phase_ready_to_end prolongs the phase; run and post_shutdown end together, when neither is objected to any more.",
  ["programs", "schedules"], "all patterns of raise/drop by any set of components at any times, with any drain times, including re-raising before the drain elapses",
  "Tests use one or two objectors with fixed delays; the interesting cases are re-raise during the drain window and simultaneous drops.",
  [B+"uvm_phase.py", B+"uvm_objection.py", B+"uvm_task_phase.py"],
  [("phase objection waited for by the phase's process, drain timer, process kill", B+"uvm_phase.py")],
  ["phase callbacks, simulation time"])

prop("C03", "Objection counts are conserved up the component hierarchy",
  "At every moment the objection count of an object equals what it raised minus what it dropped itself, and its total is its count plus the totals of its children, where the drop that brings a child's total to zero reaches the parent only when the drain time of the child is over and its all_dropped callback is done. Each raise and drop notifies the object and the ancestors whose total it changes, with the original source object, description and count, in the component's hooks and in objection callbacks; all_dropped is delivered exactly once, at the end of the drain, for each return of a total to zero that is not cancelled by a new raise before (which passes on only the difference). Dropping more than was raised is reported as fatal and changes no count, clear makes all counts zero and forgets pending drains, wait_for returns at the next event of its kind, and display_objections lists the counts as they are.",
  ["histories", "schedules"], "all histories of raise/drop/clear with counts, over all hierarchies, with drain times",
  "The unit test checks one parent/child pair; conservation over arbitrary trees and interleavings with drains is not tested.",
  [B+"uvm_objection.py"],
  [("propagation of raise/drop to the parent with the original source object", B+"uvm_objection.py")],
  ["get_objection_count, get_objection_total, the raised/dropped/all_dropped hooks"])

# ---------------------------------------------------------------- sequences
prop("C04", "Sequencer delivers each item exactly once and in order",
  "Every item a sequence sends through a sequencer reaches the driver exactly once, as the same object, unaltered, at the simulation time it was sent and in the order in which that sequence sent it; no item is lost, duplicated or delivered to another sequencer, also when it is sent to a sequencer other than the sequence's own or through the uvm_do and uvm_send functions. A sequence's send call returns only after the driver has marked that very item as done, and at that simulation time; at any moment at most one item is outstanding per driver. peek shows the same item until it is taken, and try_next_item returns at once, with an item whenever a request was waiting.",
  ["schedules", "programs"], "all numbers of concurrent sequences (nested or flat), items, priorities, driver delays and driver styles (get_next_item/item_done, try_next_item, get, peek)",
  "Examples run one or two sequences with a fixed driver; interleavings of many sequences with varying driver latency are not explored.",
  ["src/uvm/seq/uvm_sequencer_base.py", "src/uvm/seq/uvm_sequencer_param_base.py", "src/uvm/seq/uvm_sequencer.py", "src/uvm/seq/uvm_sequence_base.py"],
  [("arbitration queue, grant, request fifo, wait_for_item_done", "src/uvm/seq/uvm_sequencer_base.py")],
  ["body() of sequences and the driver's get_next_item/item_done"])

prop("C05", "Sequencer arbitration grants in request order and respects relevance",
  "With FIFO arbitration, requests waiting at a sequencer are granted in the order they were made, whatever the number of sequences, their nesting and their priorities; strict arbitration grants a request of the highest waiting priority (the earliest of them, or any of them), user arbitration is asked with exactly the waiting relevant requests and obeyed, random arbitration chooses each waiting request equally often and weighted arbitration in proportion to priority. A request has its item's priority if one is given, else its sequence's, which is inherited from the parent (100 for a root). Under every arbitration a sequence that is not relevant is skipped until it becomes relevant, and a driver that asks for an item gets a grant at the first instant at which a relevant request waits.",
  ["schedules", "programs"], "all request arrival orders and times, relevance patterns and arbitration settings",
  "One example uses FIFO arbitration with equal sequences; relevance changes and late arrivals are never exercised.",
  ["src/uvm/seq/uvm_sequencer_base.py"],
  [("choice of the next request from the arbitration queue", "src/uvm/seq/uvm_sequencer_base.py")],
  ["grant order seen as the order of start_item returns and of items at the driver"])

prop("C06", "Responses reach the sequence whose item they answer",
  "A response a driver returns for an item (through item_done, put or the response port) is delivered to exactly the sequence that sent this item, once, and responses of one sequence arrive in the order returned; asking for the response of a given transaction id returns that response whatever the order of arrival and leaves the others in place, and a waiting get_response returns as soon as its response is there. The response queue keeps up to its configured depth of responses (8 unless set, -1 for no limit), drops further ones and reports each as an error unless that is disabled, and a registered response handler gets every response instead of the queue. Responses to a run of a sequence that has ended are dropped, also when the sequence has been started again. Transaction ids given by the user are kept, others are unique within a run of the sequence.",
  ["schedules", "histories"], "all interleavings of several sequences, out-of-order responses, depths and lookups by id",
  "Examples read one response right after each item.",
  ["src/uvm/seq/uvm_sequence_base.py", "src/uvm/seq/uvm_sequence.py", "src/uvm/seq/uvm_sequencer_param_base.py"],
  [("sequence id and transaction id copied to the response", "src/uvm/seq/uvm_sequence_item.py"), ("response queue", "src/uvm/seq/uvm_sequence_base.py")],
  ["get_response, response_handler"])

prop("C07", "Sequence callbacks run in the documented order around the body",
  "Starting a sequence runs pre_start, pre_body, body, post_body and post_start exactly once each in this order without time passing in between (pre_body and post_body only when requested), with the parent's pre_do, mid_do and post_do around a child's body and around every item; the reported state follows the step and is finished when start returns, start returns only when the body is complete, and wait_for_sequence_state returns when one of the given states is first reached. With automatic phase objection the starting phase is objected to for exactly the duration of the sequence. Killing a sequence, or stopping the sequences of its sequencer, ends it and its running children at once: they are told by do_kill, their state is stopped, none of their remaining callbacks run, their waiting requests are removed from all sequencers, their objections are dropped and their start calls return; other sequences go on undisturbed, and the killed ones can be started again.",
  ["programs", "schedules"], "all nestings of sequences and items, delays in every callback, start options, restarting a finished sequence",
  "Examples override body only.",
  ["src/uvm/seq/uvm_sequence_base.py"],
  [("start/start_process state steps", "src/uvm/seq/uvm_sequence_base.py")],
  ["the sequence callbacks, get_sequence_state"])

# ---------------------------------------------------------------- TLM
prop("C08", "TLM FIFO is a bounded loss-free FIFO",
  "Items leave a TLM FIFO in the order they entered, each exactly once, whatever mix of blocking and non-blocking put, get and peek is used by any number of producers and consumers; peek returns the next item without removing it. At no time does it hold more items than its size (0 means unbounded), a blocking call returns as soon as it can proceed and not before, non-blocking calls succeed exactly when there is room or an item, and used, is_empty, is_full, can_put and can_get agree with the contents. Every successful put and get is published once on the put and get analysis ports, and flush empties the FIFO.",
  ["schedules", "histories"], "all sizes, numbers of producers/consumers, operation mixes and delays",
  "Tests use size 1 or 2 and a single producer and consumer.",
  ["src/uvm/tlm1/uvm_tlm_fifos.py", "src/uvm/tlm1/uvm_tlm_fifo_base.py", B+"uvm_mailbox.py"],
  [("mailbox with read/write events", B+"uvm_mailbox.py")],
  ["put/get/peek calls at ports and exports, put_ap/get_ap"])

prop("C09", "Mailbox never loses, duplicates or reorders an item",
  "A mailbox delivers the items put into it in order, each to exactly one getter, and never holds more than its bound; peek never removes an item and always returns one that is really there. A blocked put or get proceeds as soon as the condition it waits for holds, also when several processes wait at once, and num, can_put and can_get always agree with the contents.",
  ["schedules", "histories"], "all bounds, numbers of putters/getters/peekers and delays",
  "The test has one producer and one consumer.",
  [B+"uvm_mailbox.py"], [("queue with read/write events re-checked in a loop", B+"uvm_mailbox.py")],
  ["put/get/peek/try_* calls"])

prop("C10", "An analysis port broadcasts each item once to every subscriber",
  "A write to an analysis port calls write of every connected subscriber exactly once with that item, in connection order, through any depth of port-to-port and export connections, and with zero subscribers does nothing. Analysis FIFOs accept every write without blocking and return the items in order; a subscriber that writes to a further port during its write does not disturb the broadcast.",
  ["programs", "histories"], "all connection graphs of analysis ports, exports and implementations, and all write sequences",
  "Tests connect one port to one or two subscribers.",
  ["src/uvm/tlm1/uvm_analysis_port.py", B+"uvm_port_base.py", "src/uvm/tlm1/uvm_tlm_fifos.py"],
  [("resolved list of implementations", B+"uvm_port_base.py")], ["write() of subscribers"])

prop("C11", "Port connections resolve to exactly the implementations reached",
  "After elaboration a port is bound to exactly the implementations reachable through its connections, each once, whatever the order in which the connections were made, and a call through the port reaches the bound implementation and returns its result. A port with fewer or more bindings than its declared minimum and maximum, a connection whose provider lacks a required method, and a connection in an illegal direction are reported as errors; legal ones are not.",
  ["programs", "configurations"], "all connection graphs over hierarchies of ports, exports and implementations, all interface kinds and size limits",
  "Tests make single connections.",
  [B+"uvm_port_base.py", "src/uvm/tlm1/uvm_ports.py", "src/uvm/tlm1/uvm_exports.py", "src/uvm/tlm1/uvm_imps.py", "src/uvm/macros/uvm_tlm_defines.py"],
  [("connect checks and resolve_bindings", B+"uvm_port_base.py")], ["size(), get_if(), calls through ports, connection reports"])

prop("C12", "A request/response channel delivers each item once, in order",
  "Through a request/response channel the slave receives the requests in the order the master put them and the master receives the responses in the order the slave put them, each exactly once, whichever export or port is used on either side, and requests and responses never mix. Each direction holds at most its configured number of items, and the request and response analysis ports publish each item put exactly once.",
  ["schedules", "configurations"], "all channel sizes, numbers of transactions, delays on both sides and blocking or non-blocking access",
  "One example with fixed delays.",
  ["src/uvm/tlm1/uvm_tlm_req_rsp.py", "src/uvm/tlm1/uvm_imps.py"],
  [("request fifo and response fifo", "src/uvm/tlm1/uvm_tlm_req_rsp.py")], ["master and slave calls"])

# ---------------------------------------------------------------- synchronisation
prop("C13", "Events wake exactly the waiting processes and keep their state",
  "Triggering an event wakes every process waiting for a trigger at that moment, once, and none that starts to wait later, except that a persistent-trigger wait started in the same time slot returns at once. The event is then on, with the trigger time and data of the last trigger, until it is reset, waits for on or off return as soon as the event is in that state, and the number of waiters reported equals the number of processes waiting for the trigger. Registered callbacks run around every trigger in order, and a callback that vetoes the trigger prevents it.",
  ["schedules", "histories"], "all histories of wait variants, trigger, reset and cancel by several processes",
  "Tests trigger an event once with one waiter.",
  [B+"uvm_event.py"], [("cocotb event plus on/value-changed event", B+"uvm_event.py")], ["return of the wait calls, get_* queries"])

prop("C14", "A barrier releases its waiters exactly at the threshold",
  "Processes waiting at a barrier stay blocked until the number waiting reaches the threshold, and then all of them proceed at that simulation time, exactly once; with auto-reset the barrier then starts to count again from zero, and without it later arrivals pass until it is reset. Lowering the threshold to the number waiting, or a reset with wake-up, releases the waiters, and the number of waiters reported equals the number of processes waiting.",
  ["schedules", "histories"], "all thresholds, arrival times, numbers of rounds, resets and threshold changes",
  "No test of barriers.",
  [B+"uvm_barrier.py"], [("waiter count and event", B+"uvm_barrier.py")], ["return of wait_for, get_num_waiters"])

# ---------------------------------------------------------------- factory, configuration
prop("C15", "Factory creates the type the registered overrides prescribe",
  "Creating an object or component by type or by name yields the requested type unless an override applies; an instance override whose path pattern matches the full instance path wins over any type override, the earliest matching instance override and the type override in effect (replaced or kept as requested) are used, and overrides chain until no further one applies. Creation never changes the registered overrides, works identically by type and by name, and an override loop is reported and terminates.",
  ["configurations", "histories"], "all sets and orders of type and instance overrides, wildcard paths and creation requests",
  "Tests cover one or two overrides.",
  [B+"uvm_factory.py", B+"uvm_registry.py"], [("override queues searched in find_override_by_type/name", B+"uvm_factory.py")],
  ["type of the created object"])

prop("C16", "Configuration lookups return the value UVM precedence prescribes",
  "A configuration get at a component returns the value of the set whose instance path pattern matches the full path and whose field name is equal, and with several matches the one set last wins; during the build phase a set made from a higher context wins over one from a lower context whatever the order. A get with no match returns false and leaves the value alone, setting the same field from the same context again replaces the value and counts as set last, a pattern without wildcard applies to that path only, and a regular expression between slashes applies where it matches. Automatic configuration gives each declared field of a component the value an explicit get at that moment returns.",
  ["configurations", "histories"], "all histories of sets and gets over hierarchies, contexts, exact and wildcard paths, phases",
  "Unit tests do a handful of sets with one matching entry.",
  [B+"uvm_config_db.py", B+"uvm_resource.py"], [("resource precedence and name queue order", B+"uvm_resource.py")], ["UVMConfigDb.get/exists"])

prop("C17", "Resource database lookup follows scope, name and precedence",
  "A resource is visible exactly in the scopes its scope pattern matches and under its name; a lookup returns the matching resource of highest precedence, and among equals the one set with override, else the first set. Writing changes the value seen by all later reads, a read-only resource is never changed and the attempt is reported, and the access record counts the reads and writes of each accessor.",
  ["configurations", "histories"], "all histories of set, override, write, priority change and lookup with glob and regular-expression scopes",
  "Tests set a few resources with disjoint scopes.",
  [B+"uvm_resource.py", B+"uvm_resource_db.py"], [("name table of queues", B+"uvm_resource.py")], ["lookups and reads"])

# ---------------------------------------------------------------- objects
prop("C18", "Copy, clone and compare of objects agree with their fields",
  "After copying or cloning, every registered field of the destination that takes part in copy equals the source's, fields excluded from copy keep their value, reference fields hold the source's handle, and all other nested objects and containers (lists, dicts, byte arrays) are copies with the same structure, also with objects linked several times or in circles, so that a later change of one side never shows in the other; members copied by do_copy are included. Compare returns True exactly when no registered field that takes part in comparison differs and do_compare agrees, at any nesting depth; it counts each difference and reports its place by full path, until show_max of them are found, never changes either object, and compares handles only under the reference policy.",
  ["inputs", "programs"], "all field values, field flags, nestings and containers",
  "Tests use one small object.",
  [B+"uvm_object.py", B+"uvm_comparer.py", "src/uvm/macros/uvm_object_defines.py"], [("field automation over registered fields", "src/uvm/macros/uvm_object_defines.py")],
  ["copy/clone/compare results"])

prop("C19", "Packing followed by unpacking restores every value",
  "Any sequence of values (integers of any width, strings, arrays of bytes or ints, objects) packed and then unpacked with the same types, sizes and settings yields the same values, integers modulo the size given (32 bits for registered fields), consuming exactly the bits that were produced; the number of bits reported is the sum of the sizes packed, None objects and strings without a length need the metadata setting. The bit, byte and integer views describe the same bits, in the order selected by the endianness setting, and a stream can be moved to another packer through any of them, also by pack and unpack of whole objects, where fields excluded from packing keep their value. Requests for more bits than the value or the stream has are refused with an error and change nothing.",
  ["inputs", "configurations"], "all value sequences, widths, endianness and metadata settings",
  "Tests pack a few constants.",
  [B+"uvm_packer.py", B+"uvm_object.py"], [("bit vector with pack/unpack pointers", B+"uvm_packer.py")], ["unpacked values, get_packed_size"])

prop("C20", "Printing shows every field once with its value and radix",
  "Printing an object shows every registered field whose flags enable printing and which is an integer, a string or an object other than None exactly once, base class fields first and in declaration order, followed by what do_print adds, with its name, its size and its complete value in the radix set for it (negative decimals with their sign); nested objects appear one level below their owner up to the depth limit, child components before fields, references without contents, and cyclic references terminate. Table, tree and line formats show the same rows under the knobs (names, types, sizes, headers, radix strings, prefix, indentation), with aligned columns and balanced separators; printing twice gives the same text and never changes the object.",
  ["inputs", "programs", "configurations"], "all field values, radices, nestings and printer knobs",
  "Tests compare a few strings.",
  [B+"uvm_printer.py", B+"uvm_misc.py"], [("row list and emit()", B+"uvm_printer.py")], ["sprint() output"])

# ---------------------------------------------------------------- reporting
prop("C21", "A report is issued exactly when verbosity and actions allow it",
  "A report is issued exactly when its verbosity does not exceed the limit of its reporter for its severity and id (the limit set for the severity and id, else for the id, else the maximum); the warning, error and fatal macros report at UVM_NONE. The severity of an issued report is changed by the override for its id, else for its severity, and then the most specific action set for it applies (severity and id, then id, then severity): it is displayed once for DISPLAY, written once for LOG to the most specific file set, recorded once for RM_RECORD, ends the run for EXIT (pre_abort of each component once, children first) or stops for STOP, and nothing happens for no action. Defaults: UVM_MEDIUM; DISPLAY, and COUNT for errors, EXIT for fatals. The text shows the severity after overrides, the reporter's full name, id and message, and the macros' file and line. The macros use the settings of the component or report object that uses them, of the given context, or else of the root. Settings for a hierarchy (*_hier) apply to the component and every component below at that time, new components take their verbosity limit from the parent, settings of one reporter never affect another, and reset_report_handler restores the defaults.",
  ["configurations", "inputs"], "all combinations of verbosity, severity, id, per-id and per-severity settings and overrides",
  "Tests set one action or verbosity at a time.",
  [B+"uvm_report_handler.py", B+"uvm_report_object.py", B+"uvm_report_server.py", B+"uvm_component.py"], [("lookup in the handler's tables", B+"uvm_report_handler.py")], ["displayed messages, calls of the report server"])

prop("C22", "Report counts match the reports issued, and catchers see each once",
  "The counts per severity and per id equal the numbers of reports executed since they were last set or reset, and the summary shows them, the quit count and the numbers of reports caught and demoted by severity. A report with the COUNT action raises the quit count only while a maximum is set, and the one that reaches the maximum ends the run, not one before; a maximum set as not overridable stays. Every enabled catcher registered for the reporter (or for all) sees each report once, in registration order with the append or prepend position asked for, as changed by the catchers before it, until one catches it; a caught report is neither displayed nor counted, and changes of severity, id, text, verbosity, context and action take effect, a changed severity bringing its own default action unless one was set. Reports a catcher issues itself are executed once and seen by no catcher, a catcher that returns neither THROW nor CAUGHT gets an error and the report goes on, and the debug flags disable catching or modifying.",
  ["histories", "configurations"], "all report histories, catcher sets and quit counts",
  "Tests issue a few reports and one catcher.",
  [B+"uvm_report_server.py", B+"uvm_report_catcher.py", B+"uvm_report_message.py"], [("process_report_message / execute_report_message", B+"uvm_report_server.py")], ["counts, displayed messages"])

prop("C23", "Callbacks run once each, in registration order, where registered",
  "Running the callbacks of an object with a callback class calls every enabled callback of that class (or a derived one) that is registered for the object or for all objects exactly once, in registration order with the append or prepend position requested, and no other, with the given arguments; the exit-on form stops after the first that returns the value asked for and says so. Callbacks registered for all apply to objects created before and after the registration and to objects with callbacks of their own; a second registration of a callback for the same object is reported and changes nothing. Enabling, disabling and appending take effect at once, also while the callbacks run, runs can be nested, and iterators visit the same callbacks in both directions.",
  ["histories"], "all histories of add, delete, enable and invoke over several objects and types",
  "Tests add two callbacks.",
  [B+"uvm_callback.py", "src/uvm/macros/uvm_callback_defines.py"], [("type-wide and instance queues", B+"uvm_callback.py")], ["calls of callback methods"])

prop("C24", "The component tree is consistent, and names identify components",
  "Every component appears exactly once among its parent's children, in creation order and under its own name (a name is made up for unnamed ones); its full name is the parent's full name and its name joined by a dot, and its depth follows. Looking up a relative or absolute path from any component returns exactly the component it names, or nothing and a warning. find_all returns exactly the components, from the given one down, whose full names match the wildcards, find returns one of them and reports when there is none or several, and the topology print shows every component enabled for printing at its level. A second child of the same name is a fatal error, renaming an error, and both leave the tree unchanged. Searching the tree, also from within iterations and phase callbacks, changes nothing.",
  ["programs", "inputs"], "all trees and names, all lookups",
  "Tests build trees of three components.",
  [B+"uvm_component.py", B+"uvm_root.py"], [("children map by name", B+"uvm_component.py")], ["get_children, lookup, find, find_all, get_full_name"])

# ---------------------------------------------------------------- registers
prop("C25", "Field mirror follows the access policy on every read and write",
  "For each of the predefined access policies, the mirrored value of a field after a successful write or read of its register through a map that predicts by itself equals what a hardware field of this policy holds after the bus access, as far as the rights of the register in that map let it reach the field, write-once fields included. Predictions of writes and reads update it in the same way, direct ones set it, those given byte enables only update the fields whose first byte is enabled, and those of a value during an access to the register are refused and change nothing. Every such change also sets the desired value; setting a field changes only the desired value, to what the policy makes of it. needs_update of fields, registers and blocks tells exactly whether a desired value differs from the mirrored one or a field is volatile; update writes the register exactly then, with a value that makes the hardware hold the desired one. mirror and checked reads report exactly the differences between the mirrored value before and the value read in fields that are compared and readable. Reset gives the reset value of the kind asked for, or changes nothing if there is none.",
  ["inputs", "histories"], "all policies, field sizes, values and histories of write, read, predict, set, update and reset",
  "Tests cover RW and a few others with single operations.",
  ["src/uvm/reg/uvm_reg_field.py", "src/uvm/reg/uvm_reg.py"], [("XpredictX/XupdateX per policy", "src/uvm/reg/uvm_reg_field.py")], ["get, get_mirrored_value, bus writes"])

prop("C26", "Register map addresses are exact and invert to the register",
  "The addresses of a register in a map are, from its least significant part on, one per bus access needed for its width at the width of the map: the base address of a root map, or the offset of a submap in its parent and so on up to the root, plus its offset and consecutive words in the order the endianness of the map sets (or one address throughout for the FIFO ones), a word counting as its bytes with byte addressing and as one otherwise; where a parent is narrower, each of its words in turn as the parent orders them. The words of a memory follow each other in the same way. Looking up one of these addresses in the root map returns the register, for reading or writing the read-only or write-only one if such a pair shares it, and any other address nothing; this also holds after a register was moved or unmapped or a submap moved. Other registers and memories that overlap are reported when the model is locked, as are mappings that are repeated or of the wrong block, which have no effect. Maps, registers and blocks answer queries for their parents, contents, rights, widths, effective base and endianness accordingly.",
  ["configurations"], "all nestings of blocks and maps, base addresses, bus widths, endianness, register widths and byte/word addressing",
  "Tests check single maps of 4 bytes.",
  ["src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg_block.py"], [("Xinit_address_mapX, get_physical_addresses", "src/uvm/reg/uvm_reg_map.py")], ["get_address(es), get_reg_by_offset"])

prop("C27", "Frontdoor register access moves exactly the register's bits",
  "A frontdoor write or read of a register performs exactly the bus accesses its map prescribes, in order, each with the address, data slice, kind, number of bits and all byte enables for its widths and endianness, or a single item for the register where there is no adapter, or a call of the frontdoor the user gave it. Before it the pre-hooks and callbacks of the fields and then of the register run, and can change the value or refuse the access; after it the post-hooks and callbacks of the register and then of the fields run, each with its element, and coverage is sampled once if the map predicts by itself. After a write the hardware holds the value, a read returns what the hardware holds, and the mirror afterwards agrees with the hardware if the map predicts. A bus error ends the access and gives its status, the last post-hook or callback can change that; an access through a foreign map or of an unmapped register is reported, fails and reaches neither hooks nor bus. Accesses to one register at the same time follow one another without mixing, whatever became of the ones before. The parent sequence of an access is called before and after it and its bus items. Updating a block writes exactly the registers that need it, mirroring it reads them all and reports the differences.",
  ["inputs", "configurations", "schedules"], "all register widths, bus widths, endianness, values, adapters and concurrent accesses",
  "Examples access 32-bit registers on a 32-bit bus.",
  ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_reg_map.py", "src/uvm/reg/uvm_reg_adapter.py"], [("do_bus_write/do_bus_read", "src/uvm/reg/uvm_reg_map.py")], ["bus items at the driver, returned values, mirror"])

prop("C28", "Memory accesses, single or burst, touch exactly the addressed words",
  "A memory access, single or burst, by the bus or by the backdoor, reaches exactly the words it addresses: on the bus one access for each bus word of each memory word, in order, at the addresses the maps prescribe, up to the first error; reads return what these words hold and writes change them and no others (a backdoor write leaves a read-only memory alone). The hooks and callbacks of the memory run in order around the access and may change the values or cancel it, each word is sampled for coverage once, and concurrent accesses keep their own values and status. Offsets beyond the memory, bursts on the bus beyond its end or through a map narrower than a word, maps that do not hold the memory and missing backdoors are refused with an error status, an error report and no access at all.",
  ["inputs", "histories", "configurations"], "all memory sizes, widths, bus widths, offsets and burst lengths",
  "Examples write and read a few words.",
  ["src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_map.py"], [("address list per word, burst loop", "src/uvm/reg/uvm_mem.py")], ["bus items, returned values"])

prop("C29", "Memory manager never hands out overlapping regions",
  "Regions allocated or reserved by a memory allocation manager lie inside its address range, have the size asked for, and never overlap a region in use; a reservation succeeds exactly when the range is free, released regions become available again, and the set of regions listed is exactly those not yet released.",
  ["histories"], "all histories of reserve, request and release over any range and unit size",
  "No test of the memory allocation manager.",
  ["src/uvm/reg/uvm_mem_mam.py"], [("sorted in-use list", "src/uvm/reg/uvm_mem_mam.py")], ["region offsets, for_each"])

prop("C30", "The predictor mirrors every observed bus operation",
  "Once a predictor has observed all the bus accesses that make up a register of its map, in any order and interleaved with those of other registers, it updates the mirror of that register and of no other as the access policies of the fields, the rights of the map and the byte enables prescribe, samples its coverage and publishes one register item with the value and the kind of access; before that nothing is published and no mirror changes, and accesses to other addresses have no effect. With check-on-read a value that differs from the mirror is reported. An access repeated before the register was complete is reported and drops the incomplete one, and operations still incomplete at the end are reported. With a predictor on the bus in place of automatic prediction the mirror follows the hardware.",
  ["histories", "configurations"], "all streams of bus operations over maps of registers of several widths",
  "One unit test with one operation.",
  ["src/uvm/reg/uvm_reg_predictor.py", "src/uvm/reg/uvm_reg.py"], [("pending table per register", "src/uvm/reg/uvm_reg_predictor.py")], ["mirror values, reg_ap"])

prop("C31", "FIFO registers and indirect registers behave as their models",
  "A FIFO register holds the values written, set or predicted in order up to its capacity: a write puts its value at the end, a read takes the front value and, when comparing is on, reports a value that differs from it; a write when full or between set and update, and a read when empty, fail without a bus access; update writes exactly the values set since, and size and front value follow. An access to a register of a table writes its position to the index register and then accesses the data register, with no other access to either in between whatever other tasks do; it reaches that table entry and no other, updates the mirrors of exactly that entry and the index, and returns its value and status. An access of the data register itself reaches the entry selected. An access that fails leaves the registers usable and reports failure.",
  ["inputs", "histories"], "all values, indices, capacities, table and bus widths, histories of operations and interleavings of tasks",
  "Examples exercise one layout.",
  ["src/uvm/reg/uvm_reg_fifo.py", "src/uvm/reg/uvm_reg_indirect.py"], [("index and data pair used by several tasks", "src/uvm/reg/uvm_reg_indirect.py")], ["bus accesses and returned values"])

# ---------------------------------------------------------------- small things users rely on
prop("C32", "Data access policies refuse exactly the accesses they forbid",
  "A get-to-lock value can be set until it was first read and never changes afterwards, a locked simple-lock value never changes until unlocked, and a set-before-get value cannot be read before it was set (try_get of it tells whether there is a value); each refused access is reported as an error and changes nothing, accepted accesses report nothing, and objects do not share values or locks.",
  ["histories"], "all histories of set, get, try, lock and unlock",
  "No tests of these classes apart from one use in sequences.",
  ["src/uvm/dap/uvm_get_to_lock_dap.py", "src/uvm/dap/uvm_simple_lock_dap.py", "src/uvm/dap/uvm_set_before_get_dap.py"], [("lock flags", "src/uvm/dap")], ["returned values and errors"])

prop("C33", "TLM2 calls reach the other end of their chain, and TLM2 times keep their value",
  "A blocking or non-blocking transport call made through an initiator or target socket or a port, with any number of pass-through sockets, ports and exports on either side connected in any order, reaches exactly the implementation at the other end of its chain, once, with the same transaction, phase and delay objects, and returns what the implementation returns when it does; the backward path of a chain of non-blocking sockets ends at its initiator. A call without a delay reaches nobody and is reported. Connecting sockets that do not fit, connecting a target socket onward and leaving an initiator unconnected are reported. TLM2 times add, subtract and convert between units and resolutions without losing more than rounding; a negative step changes nothing and one below zero gives zero, and both are reported.",
  ["inputs", "programs"], "all chains of sockets and ports, call schedules and histories of times",
  "Two examples with fixed payloads.",
  ["src/uvm/tlm2/uvm_tlm2_sockets.py", "src/uvm/tlm2/uvm_tlm2_sockets_base.py", "src/uvm/tlm2/uvm_tlm2_imps.py", "src/uvm/tlm2/uvm_tlm2_time.py"], [("socket connect and implementation calls", "src/uvm/tlm2/uvm_tlm2_sockets.py")], ["calls at both ends, values of times"])

prop("C34", "Comparators match the two streams item by item",
  "An in-order comparator compares the n-th item of one stream with the n-th of the other, whatever the arrival interleaving and however far one stream is ahead; its match and mismatch counts equal the numbers of equal and unequal pairs since the last flush as its compare policy tells, each mismatch is reported once as an error and nothing else is, and each pair is published once in order holding exactly these two items. An algorithmic comparator does the same with the items transformed, transforming each once. Pairs copy and compare by their contents.",
  ["schedules", "inputs"], "all item streams and arrival interleavings",
  "One example with fixed streams.",
  ["src/uvm/comps/uvm_in_order_comparator.py", "src/uvm/comps/uvm_algorithmic_comparator.py"], [("two analysis fifos and a compare loop", "src/uvm/comps/uvm_in_order_comparator.py")], ["counts, reports, pair_ap"])

prop("C35", "Pools and queues behave as the map and list they model",
  "For every history of operations a pool behaves as an insertion-ordered map and a queue as a list: contents, size, iteration in both directions, lookups, insertions and deletions at any legal position agree, and illegal accesses are reported or refused without changing the contents. Copying gives an equal container that later changes of the original do not affect.",
  ["histories"], "all operation histories",
  "Tests run a few operations each.",
  [B+"uvm_pool.py", B+"uvm_queue.py"], [("ordered dict / list", B+"uvm_pool.py")], ["results of the operations"])

prop("C36", "Command line settings have exactly their documented effect",
  "Arguments are found by exact prefix or by a regular expression between slashes, with the values of repeated ones all in order, and those with a plus and those for UVM are listed as given. The verbosity, severity and action settings, the type and instance overrides, the integer and string configuration and the test name given on the command line take effect as their API counterparts do, from the construction of the components on or from the phase or time given, on exactly the components, severities and ids their patterns match (the first test name and global verbosity count, later settings replace earlier ones). Time-out and quit-count limits are those of the first such argument and can be changed later unless it says NO. Settings that cannot be understood, and severity and action settings that match no component, are reported and others are not; the dump lists all arguments when asked for.",
  ["configurations"], "all combinations of plus arguments",
  "Examples run three argument sets.",
  [B+"uvm_cmdline_processor.py", B+"uvm_root.py", B+"uvm_component.py"], [("parsing of plusargs", B+"uvm_cmdline_processor.py")], ["lookups, reports, created types"])

prop("C37", "Transaction recording brackets every transaction exactly once",
  "Beginning and ending a transaction gives it begin and end times equal to the simulation time (or to the time given), runs its begin and end hooks once and then triggers its begin and end events; it is active exactly in between. With recording enabled on an open stream a begin opens exactly one record there, of the kind and linked to the parent asked for, and the end (or the next begin) writes its field values as they are then, closes it and frees it unless told not to; a component with recording on does the same in its own stream, with label and description, as do sequences for every run and recorded events and errors. Streams and recorders move only open to closed to freed; closing a stream closes its recorders, freeing it or closing the database frees them, and a handle finds its stream or record until that is freed. The text database holds exactly these entries, in order.",
  ["histories", "schedules"], "all histories of accept, begin, end, child begin and free",
  "One example records one transaction.",
  [B+"uvm_transaction.py", B+"uvm_tr_stream.py", B+"uvm_tr_database.py", B+"uvm_recorder.py", B+"uvm_component.py"], [("recorder life cycle", B+"uvm_recorder.py")], ["times, is_active, recorder and stream state"])

prop("C38", "SystemVerilog helper functions follow their definitions",
  "A glob pattern matches exactly the whole strings UVM globs match (* any string, + any non-empty string, ? one character), and a regular expression written between slashes is used as such. String formatting and scanning, logarithm, bit and radix conversion, string-to-bits, severity and action names equal their definitions for every input. A semaphore never grants more keys than it holds, grants waiting processes in the order they asked as soon as their keys are there, and fork_join returns when all (or any) of its processes ended.",
  ["inputs", "schedules"], "all strings, numbers and key request histories",
  "Tests check a few constants.",
  [B+"sv.py", B+"uvm_globals.py", B+"uvm_misc.py"], [("helper functions", B+"sv.py")], ["return values"])

prop("C39", "Built-in register tests pass correct hardware and name faulty elements",
  "The built-in hardware reset, bit bash, register access, memory access and memory walk sequences, run alone, for a single element or together by the sequences that combine them, report no error about hardware that behaves as the register model describes, and report an error naming the element when a register has a wrong reset value, a stuck or wrongly accessible bit, shares or swaps its storage with another, when a memory has a stuck data bit or aliased words, or when its accesses return an error, provided the test run is one that exercises what is wrong. They test each register and memory of the block and of its subblocks through every map it is in, writing both values to every bit of comparable read-write fields in the bit bash test, reset the model before each test, skip the elements without a backdoor in the tests that need one, and make no access to an element excluded from the test by a resource for it or for a block above it.",
  ["inputs", "faults", "configurations"], "all register models, exclusions and hardware faults",
  "Examples run some of the sequences on one correct model, with nothing for them to find and nothing excluded.",
  ["src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py", "src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py", "src/uvm/reg/sequences/uvm_reg_access_seq.py", "src/uvm/reg/sequences/uvm_mem_access_seq.py", "src/uvm/reg/sequences/uvm_mem_walk_seq.py", "src/uvm/reg/sequences/uvm_reg_mem_built_in_seq.py"], [("the test sequences", "src/uvm/reg/sequences/uvm_reg_bit_bash_seq.py")], ["errors reported, bus and backdoor accesses made"])
prop("C40", "Backdoor accesses reach exactly the design objects the HDL paths name",
  "The full HDL paths of a register, memory or block are, for each kind, every alternative of its own path below every alternative path of each block above it up to the root path set for the kind, an empty path adding no scope, and the kind asked for without a name is the default of the nearest block that sets one. A backdoor write, update or poke sets every object named by every alternative to the bits of its slice, with the access policy of the fields of a register applied to what the object held and with no effect by a write on a read-only memory; a backdoor read, mirror or peek returns the value of the objects, applies the read effect of the fields, and reports an error and fails when the alternatives disagree; an object that does not exist makes the access fail. No other object of the design changes, no bus access is made, the mirror of a register follows the value found or written, a difference found by a mirror that checks is reported naming the register, and the register's own hooks are called around the access. Without a path of the kind the access is made by the bus with a warning, and a poke or peek of a memory fails.",
  ["inputs", "configurations", "faults"], "all path configurations, designs and backdoor accesses through paths",
  "Tests contain a few paths of one kind, and no slices, alternatives, missing or differing objects.",
  ["src/uvm/dpi/uvm_hdl.py", "src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_block.py"], [("access by path", "src/uvm/dpi/uvm_hdl.py"), ("slices and alternatives", "src/uvm/reg/uvm_reg.py")], ["objects of the design, status, values, reports, mirror"])
prop("C41", "Randomization meets domains and constraints, and repeats from a seed",
  "A call of randomize or randomize_with gives every random variable of the object, and of the objects registered in it, a value of its domain such that every constraint in force holds for the values and the members constraints read, or, exactly when there are no such values, raises RandomizeError, leaving the variables of the object as they were. In force is the latest constraint added for each combination of variables; those given in a call replace it for that call only. pre_randomize is called once before the variables of the object or those below it change and post_randomize once after, for each object randomized; other members keep their values, and an object whose randomization is switched off, or below one for which recursion is switched off, stays untouched. Objects draw from a random state of their own: the same calls from the same seed give the same values whatever else is randomized in between, and no object repeats the values of another. Randomizing a register block sets the desired values of the random fields that can be written within their size, and changes no other field and no mirrored value.",
  ["inputs", "histories", "configurations"], "all trees of objects, domains, constraints, call histories and seeds",
  "Tests randomize single objects a few times and look at one value.",
  ["src/uvm/base/sv.py", "src/uvm/reg/uvm_reg_field.py"], [("randomization", "src/uvm/base/sv.py")], ["values, hook calls, errors, reruns from a seed"])
prop("C42", "Default sequences run for their phase; agents read is_active",
  "When a run-time phase starts, each sequencer starts exactly the default sequence that the highest-precedence setting for its path and the phase gives, once: the instance set, or one created from the type set by the factory with its overrides for the path of the sequencer, randomized, without a parent, knowing its phase, with all its callbacks in order and its items going to the driver of that sequencer. A setting of nothing disables it, a type that is no sequence is reported and starts nothing, and a sequencer without a setting starts nothing. A sequence with the automatic phase objection holds its phase until it ends; any other is killed when the phase ends, does nothing afterwards, and does not delay the phase. After its build phase an agent is active or passive as the highest-precedence setting of is_active for its path tells, and active without one.",
  ["configurations", "schedules"], "all settings, overrides, phases and sequences",
  "Tests contain no default sequence and at most one setting of is_active.",
  ["src/uvm/seq/uvm_sequencer_base.py", "src/uvm/comps/uvm_agent.py", B+"uvm_task_phase.py"], [("lookup, start and kill", "src/uvm/seq/uvm_sequencer_base.py"), ("is_active", "src/uvm/comps/uvm_agent.py")], ["callbacks of sequences, phase times, is_active"])
prop("C43", "Phases, schedules and domains that users add run where they were put",
  "A phase or schedule added to the common domain, the run-time schedule or a domain of the user's, at the end, in parallel with, before, after or between phases there, runs exactly there: it starts at the instant the last of the phases before it has ended, the phases after it start only when it has ended, and parallel phases and domains run independently until a common successor, for which each waits until none of them is objected to. Every component of the domain (those moved there with or without their subtree, and components created below; all components for the common domain) gets each phase of its domain exactly once, between phase_started and phase_ended, with the implementation set for it, parents first or children first as the kind of phase tells, and gets no phase of another domain; a new domain has its own run-time phases. Full names, is_before and is_after agree with the places of the phases, and phase callbacks are told each change of state of each phase in order.",
  ["programs", "configurations", "schedules"], "all phase graphs in which no two function phases meet in parallel, all domains, hierarchies and objections",
  "Tests contain only the standard phases in the standard domain.",
  [B+"uvm_phase.py", B+"uvm_domain.py", B+"uvm_runtime_phases.py", B+"uvm_component.py", B+"uvm_task_phase.py"], [("insertion into the graph", B+"uvm_phase.py"), ("domains of components", B+"uvm_component.py")], ["phase callbacks with their nodes and times"])
prop("C44", "Fields set by name reach exactly the declared fields that match",
  "Setting an integer, a string or an object by name in an object with declared fields sets every field whose path matches the name, which may be a pattern but should match only fields meant for values of this kind, and nothing else: the fields of its classes, derived ones included, and those of the objects its fields refer to, at any depth and also in circles, as far as no field on the way is read-only nor, for integers and strings, a reference; a set of an object looks into nested objects only when the name has a dot or a star. A matching read-only field keeps its value, with one warning that names its path. An object is set as it is or, by default, as one clone that all matching fields share. Applying its configuration settings sets the fields of a component in the same way, to the setting of highest precedence for each path, also for paths into its objects, and ignores values of other types.",
  ["inputs", "histories", "configurations"], "all classes, object graphs, names and patterns",
  "Tests set a few fields of single components and no nested ones.",
  ["src/uvm/macros/uvm_object_defines.py", B+"uvm_object.py", B+"uvm_component.py", B+"uvm_misc.py"], [("sets by name", "src/uvm/macros/uvm_object_defines.py"), ("configuration of components", B+"uvm_component.py")], ["values of all fields of all objects, reports"])
prop("C45", "Sequence macros execute the given object once, as they expand",
  "A call of uvm_do, uvm_do_with, uvm_do_pri_with, uvm_do_on, uvm_do_on_with, uvm_do_on_pri_with, uvm_send or uvm_send_pri in the body of a sequence executes the object it is given exactly once and returns when that is over. An item goes to the driver of the sequencer named, or else that of the sequence, or for uvm_send that of the item, once, with the calling sequence as its parent, after pre_do, randomization by a uvm_do form, and mid_do, and before post_do, with the values it had at mid_do. A sequence is randomized by a uvm_do form unless its do_not_randomize is set and started on that sequencer with the calling sequence as its parent, without pre_body and post_body, its body between the pre_do and mid_do, and the post_do of its parent. Values drawn are of the domains and meet the constraints of the call; objects sent keep their values. The priority given, or else that of the sequence, decides the arbitration of an item, and is the priority of a sequence started. uvm_create and uvm_create_on return a new object of the type the factory gives, with the calling sequence as parent and the sequencer given, or else that of the sequence. execute_item of a sequencer delivers the item, as it is, once to its driver, with the default priority of a sequence, and returns when the driver is done.",
  ["inputs", "programs", "schedules"], "all nested sequences of macro calls, forms, targets, priorities and constraints",
  "Examples call four of the macros in one fixed sequence and look at nothing but the end of the simulation.",
  ["src/uvm/macros/uvm_sequence_defines.py", "src/uvm/seq/uvm_sequence_base.py", "src/uvm/seq/uvm_sequence_item.py"], [("the macros", "src/uvm/macros/uvm_sequence_defines.py"), ("start and finish of items", "src/uvm/seq/uvm_sequence_base.py")], ["callbacks, randomizations, deliveries, grants"])
prop("C46", "Register coverage models are built, switched and sampled as asked",
  "build_coverage of a register, memory or block returns, of the coverage models asked for, those that the first included scope matching its full name includes, and none when no scope matches. has_coverage holds exactly when the element was given, at construction or later, all the models asked about. Nothing is measured at first; set_coverage turns measuring on for exactly the models asked for that the element has and off for all others, for a block also in every register, memory and block below it, and get_coverage says so. sample_values of a block samples each register and block below it exactly once.",
  ["inputs", "histories", "configurations"], "all register models, included scopes, coverage models and calls",
  "One example includes everything everywhere and turns it on.",
  ["src/uvm/reg/uvm_reg.py", "src/uvm/reg/uvm_mem.py", "src/uvm/reg/uvm_reg_block.py"], [("coverage of registers", "src/uvm/reg/uvm_reg.py"), ("coverage of blocks", "src/uvm/reg/uvm_reg_block.py")], ["results of the calls, elements sampled"])
