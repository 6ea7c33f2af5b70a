#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json
import os

D = os.path.dirname(os.path.abspath(__file__))
PK = "cocotbext/axi/"
TESTS = "the tests drive a fixed list of sizes, offsets and pseudo-random payloads through one Icarus simulation"

P = []


def p(id, title, statement, over, text, why, files, mech, note, obs=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[PK + f for f in files], mechanism=[dict(name=n, where=PK + w) for n, w in mech],
                               observe_at=obs or ["the bus signals at rising clock edges", "values returned by the public API"], hook_needed=None)))
    P[-1]["_note"] = note


p("C01", "AXI master writes put exactly the given bytes at the given addresses",
  "For every address, data and legal burst size, an AXI master write of n bytes results in write data transfers whose enabled byte lanes, placed by the AXI4 "
  "address rules of the issued INCR or FIXED bursts, carry exactly the given bytes in order, each exactly once; no other byte lane is enabled.  "
  "The result names the requested address and length.",
  ["inputs", "schedules", "configurations"], "all addresses of the bus, all data values, transfer lengths and alignments, all burst sizes of the bus width, any burst length limit, any back pressure",
  TESTS + "; unaligned addresses next to wrap-around points, FIXED bursts, narrow bursts with burst length limits and back pressure combine into far more cases, and a wrong strobe only shows for some of them.",
  ["axi_master.py", "axi_channels.py", "stream.py"], [("splitting a write into bursts and beats, strobe generation", "axi_master.py AxiMasterWrite._process_write"), ("transfer of a beat", "stream.py StreamSource._run")],
  "INCR and FIXED bursts; WRAP bursts issued by the master are outside the claim")
p("C02", "AXI master reads return exactly the bytes at the requested addresses",
  "For every address, length and legal burst size, an AXI master read returns exactly the requested number of bytes, each being the byte the slave put on the "
  "lane which AXI4 assigns to that address of the issued INCR or FIXED bursts; bytes outside the request never appear in the result.",
  ["inputs", "schedules", "configurations"], "all addresses, lengths, alignments, burst sizes, burst length limits, read data values and response timings",
  TESTS + "; the slave there is the RAM model of the same package, so a mistake common to both is invisible.",
  ["axi_master.py"], [("issuing bursts", "axi_master.py AxiMasterRead._process_read"), ("reassembly", "axi_master.py AxiMasterRead._process_read_resp_id")],
  "INCR and FIXED bursts; WRAP bursts issued by the master are outside the claim")
p("C03", "AXI master only issues legal bursts with the requested attributes",
  "Every burst an AXI master issues is legal: an INCR burst stays inside one 4 KiB page, bursts have at most 256 (FIXED: 16) and at most the configured number of "
  "transfers, the size and type are the requested ones, and the last-transfer flag is set on the last write transfer only.  "
  "Every burst of an operation carries the sideband values and the ID given in the call, and "
  "address and data stay unchanged while a transfer waits to be accepted.",
  ["inputs", "schedules", "configurations"], "all addresses, lengths, sizes, sideband values and IDs, burst length limits, any back pressure on every channel",
  "the tests' slave model checks few of these rules (no length, sideband or stability checks), and hitting a 4 KiB boundary with every alignment needs specific addresses.",
  ["axi_master.py", "axi_channels.py", "stream.py"], [("burst splitting, ID allocation", "axi_master.py AxiMasterWrite._process_write, AxiMasterRead._process_read"), ("holding transfers", "stream.py StreamSource._run")],
  "INCR and FIXED bursts; WRAP bursts issued by the master are outside the claim")
p("C04", "AXI master operations complete once, with their own responses, in any order",
  "However a slave orders responses within the AXI ID rules, each AXI master operation completes exactly when its last response has been received, with its own address, length, data "
  "and user values, and with an error response code exactly if one of its responses carried a code other than okay (then one of those codes).  "
  "The master reports idle, and its wait functions return, exactly when no operation is outstanding; bursts of operations are issued in the order of the calls.",
  ["schedules", "inputs", "histories"], "all interleavings of responses permitted for the issued IDs, explicit and automatic IDs, response codes, several concurrent operations issued by calls, tasks or events",
  "the slave in the tests answers strictly in order and always with OKAY, so matching of responses to operations and error propagation are never exercised.",
  ["axi_master.py"], [("per-ID response contexts", "axi_master.py TagContext, TagContextManager"), ("operation accounting", "axi_master.py in_flight_operations and the completion at the end of _process_write_resp_id / _process_read_resp_id")],
  "")
p("C05", "AXI slave and RAM perform bursts exactly as AXI4 defines",
  "For every legal INCR, WRAP and FIXED burst an AXI RAM or slave model writes exactly the strobed bytes to the addresses AXI4 assigns to their lanes, in transfer order, and returns on "
  "the active lanes of each read transfer the bytes at its addresses; nothing else is accessed for writing.  "
  "It answers each burst in order with its ID, one write response or the exact number of read transfers with the last flag on the last one only, and an okay response.",
  ["inputs", "schedules", "configurations"], "all burst addresses, lengths, sizes and types, strobes, data, IDs, memory contents, timing of address and data channels, back pressure on responses",
  "the tests drive the slave only with the package's own master, which never issues WRAP bursts, partial strobes inside a word or data ahead of addresses.",
  ["axi_slave.py", "axi_ram.py", "memory.py"], [("burst execution", "axi_slave.py AxiSlaveWrite._process_write, AxiSlaveRead._process_read"), ("memory", "memory.py Memory.read/write")],
  "")
p("C06", "AXI-Lite master transfers exactly the requested bytes, one response each",
  "For every address, data and length, an AXI-Lite master write issues word transfers whose enabled lanes carry exactly the given bytes to their addresses, and a read returns "
  "exactly the bytes received for the requested addresses, with the given protection value on every transfer and values held until accepted.  "
  "Each operation completes, in order, when its last response has arrived, with an error code exactly if one of its responses had one, and idle and wait reflect outstanding operations.",
  ["inputs", "schedules", "configurations"], "all addresses, lengths, alignments, data, response codes, number of outstanding operations, stalls on every channel",
  TESTS + " against the RAM model of the same package, never with an error response.",
  ["axil_master.py", "axil_channels.py", "stream.py"], [("word splitting", "axil_master.py AxiLiteMasterWrite._process_write, AxiLiteMasterRead._process_read"), ("completion", "axil_master.py _process_write_resp, _process_read_resp")],
  "")
p("C07", "AXI-Lite slave and RAM perform each access exactly once and in order",
  "For every sequence of AXI-Lite transfers an AXI-Lite RAM or slave model writes exactly the strobed bytes of each data word to the word addressed, returns for each read the "
  "contents of the addressed word, and answers each request exactly once, in order, with an okay response, whatever the relative timing of its channels.",
  ["inputs", "schedules", "configurations"], "all addresses, strobes, data, memory contents, arrival orders of address and data, stalls",
  "only the package's own master drives the slave in the tests: no sparse strobes, no data before address.",
  ["axil_slave.py", "axil_ram.py", "memory.py"], [("access", "axil_slave.py AxiLiteSlaveWrite._process_write, AxiLiteSlaveRead._process_read")],
  "")
p("C08", "APB master follows the APB protocol and transfers exactly the requested bytes",
  "Every transfer of an APB master has one setup cycle followed by an access phase which lasts until ready, with address, direction, data, strobe and protection unchanged in between, and "
  "select is never asserted without a pending operation, nor does a transfer begin while the master is paused.  For every address, data and length the write strobes cover exactly the requested bytes with their values, reads return exactly the "
  "requested bytes and drive no write strobe, and each operation completes in order with an error exactly if one of its transfers signalled one.",
  ["inputs", "schedules", "configurations"], "all addresses, lengths, alignments, data, wait state patterns, error responses and sequences of reads and writes",
  TESTS + "; wait states follow one pause pattern, errors never occur, and nothing checks phase stability.",
  ["apb.py"], [("transfer state machine", "apb.py ApbMaster._run")],
  "")
p("C09", "APB slave and RAM perform each transfer exactly once",
  "For every sequence of APB transfers an APB RAM or slave model writes exactly the strobed bytes to the addressed word once, presents the contents of the addressed word on reads when it "
  "signals ready, and completes each transfer once without reporting an error; transfers to other peripherals (select low) change nothing.",
  ["inputs", "schedules", "configurations"], "all addresses, strobes, data, memory contents, back-to-back and spaced transfers, pause patterns",
  "the tests use only the package's own master as the requester.",
  ["apb.py", "memory.py"], [("transfer handling", "apb.py ApbSlave._run"), ("memory", "apb.py ApbRam")],
  "")
p("C10", "A master connected to a RAM model behaves as a byte array",
  "With a master and the RAM model of the same bus (AXI, AXI-Lite or APB) connected, every sequence of writes and reads behaves like the same sequence on a zero-initialised byte array: "
  "reads return the last bytes written, nothing else changes, and every operation completes, whatever the pauses on the channels.",
  ["histories", "schedules", "inputs"], "all sequences (of bounded length) of reads and writes with symbolic addresses and data, pause patterns on all channels, several data widths",
  TESTS + "; overlapping sequences with pauses on individual channels are sampled, and a lost wake-up hangs only for specific pause timings.",
  ["axi_master.py", "axi_slave.py", "axi_ram.py", "axil_master.py", "axil_slave.py", "axil_ram.py", "apb.py", "stream.py", "memory.py", "sparse_memory.py"],
  [("channel handshakes, pausing and wake-up", "stream.py StreamSource._run, StreamSink._run"), ("memory", "memory.py, sparse_memory.py")],
  "")
p("C11", "Stream sources send every queued transaction once, in order, and hold it",
  "A stream source presents the queued transactions in order, each exactly once, with all field values; once valid is asserted, valid and all values stay unchanged until the receiver is "
  "ready, and nothing is presented while nothing is queued or, apart from a transfer already presented, while paused (directly or by a pause generator, which sets the pause once per clock cycle).  "
  "Idle and wait report completion exactly when everything queued has been accepted, and the queue limit blocks further sends until there is room.",
  ["schedules", "inputs", "histories"], "all ready patterns, pause patterns and times at which transactions are queued, all payloads",
  "tests compare received data only; a value changing under back pressure or a stall for one specific pause/ready overlap is not detected.",
  ["stream.py"], [("source state machine", "stream.py StreamSource._run"), ("queue limit", "stream.py StreamSource.send/full")],
  "")
p("C12", "Stream sinks and monitors record every handshake exactly once",
  "A stream sink or monitor queues exactly one transaction with the sampled values for each clock edge at which valid and ready are both high, in order, and none otherwise.  "
  "A sink deasserts ready when paused (directly or by a pause generator, which sets the pause once per clock cycle) or when its queue limit is reached (the limit is never exceeded), asserts it again when the condition ends, and a monitor never drives the bus.  "
  "Waiting ends with the first transaction or when the given time is over.",
  ["schedules", "inputs", "histories"], "all valid patterns, pause patterns, consumption times, queue limits and payloads",
  "a missed or duplicated sample depends on the exact cycle at which pause, dequeue and valid change; the tests sample a few pause generators.",
  ["stream.py"], [("sampling and sleeping", "stream.py StreamMonitor._run, StreamSink._run"), ("queue limit", "stream.py StreamSink.full")],
  "")
p("C13", "AXI stream sources serialise frames exactly",
  "An AXI stream source sends each queued frame, in order, as consecutive transfers carrying its bytes in order with the frame's keep, ID, destination and user values, every transfer full "
  "except possibly the last, keep clear for unused lanes and the last flag on the last transfer only.  "
  "While valid is asserted and the receiver is not ready nothing on the bus changes.  The start and end times of a frame sent without a pause are those at which its first and last transfer were presented.",
  ["inputs", "schedules", "configurations"], "all frame contents and lengths up to the bound, scalar or per-byte sideband values, byte sizes and lane counts, presence of optional signals, ready patterns",
  TESTS + " for one width per run; per-byte sideband values, missing optional signals and stability under back pressure are not covered.",
  ["axis.py"], [("serialisation", "axis.py AxiStreamSource._run"), ("sideband expansion", "axis.py AxiStreamFrame.normalize")],
  "")
p("C14", "AXI stream sinks and monitors reassemble frames exactly",
  "An AXI stream sink or monitor delivers, in order, exactly one frame per last-flagged transfer (per transfer when there is no last signal), containing the bytes of all its accepted transfers in order "
  "with keep-disabled bytes removed and the corresponding sideband values; transfers which are not accepted contribute nothing.  Its start and end times are those of its first and last transfer.",
  ["inputs", "schedules", "configurations"], "all data, keep and sideband values, frame lengths, valid and ready patterns, byte sizes and presence of optional signals",
  "the tests feed the sink only from the package's own source: contiguous keep, constant sideband values.",
  ["axis.py"], [("deserialisation", "axis.py AxiStreamMonitor._run, AxiStreamSink._run"), ("keep removal", "axis.py AxiStreamFrame.compact")],
  "")
p("C15", "AXI stream frame objects preserve and compare their contents correctly",
  "Copying a frame yields an equal, independent frame; normalising and compacting keep the bytes whose keep is set in order, together with their own sideband values, and combine equal "
  "sideband values into one; equality holds exactly if the data and all sideband values both frames specify agree, where one value stands for the same value on every byte.",
  ["inputs"], "all data, keep and sideband values, scalar, list and absent forms, lengths up to the bound",
  "there is no test of the frame class.",
  ["axis.py"], [("frame", "axis.py AxiStreamFrame")],
  "")
p("C16", "AXI stream flow control: pauses, limits, completion and waiting are exact",
  "A paused AXI stream source presents no new transfer at the following clock edges and a paused sink takes its ready away at the second clock edge at the latest and accepts nothing afterwards; "
  "both resume when unpaused, and a pause generator sets the pause once per clock cycle.  Byte and frame limits stop the sink and block the sender until there is room; occupancy counts equal the contents of the queue.  "
  "The completion callback or event of a frame fires exactly once, not before its last transfer is presented; idle and wait (until its time limit, if any) reflect, and receive and read return exactly, the data pending, in order.",
  ["schedules", "histories", "inputs"], "all interleavings of sends, receives, pause changes and ready patterns within the bounds, frame lengths and limits",
  "the tests use one pause generator and no limits; a lost wake-up or a wrong count appears only for particular timings.",
  ["axis.py"], [("pause and limits", "axis.py AxiStreamPause, full() and _run of source and sink"), ("completion", "axis.py AxiStreamFrame.handle_tx_complete")],
  "")
p("C17", "Reset at any time stops and later restarts every model cleanly",
  "When reset is asserted at any time, by signal of either polarity or by call, every model deasserts its valid, ready and select outputs, and each pending master operation completes with no result (idle and wait then "
  "report that nothing is outstanding).  While reset is active, by signal or by call, nothing is transferred; once neither asserts it, new operations (and those started during reset) behave exactly as after "
  "construction, unaffected by anything that happened before: no stale command, data, response or partial frame takes part.  A transfer on the bus at the reset is dropped (the end of its frame is still reported, once); what was queued in a stand-alone stream "
  "source stays queued and is sent after the reset, and transactions a stream sink has already received remain readable.",
  ["crash_points", "schedules", "configurations"], "reset at every cycle of an operation in progress (with stalls), at and between clock edges, signal and call and both together, both active levels, zero or more cycles long, in reset at construction, activity on the bus during reset, all models",
  "no test asserts reset during a transfer.",
  ["reset.py", "axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py", "apb.py", "axis.py", "stream.py"],
  [("reset state", "reset.py Reset"), ("flushing", "_handle_reset of each model")],
  "")
p("C18", "Memories and memory regions are zero-initialised byte arrays of the given size",
  "For every sequence of writes and reads, by method, index or slice, the sparse memory and every memory region returns for each byte the value last written, or zero, across all its blocks; accesses outside the size, "
  "and slice assignments of a different length, raise an error and change nothing.",
  ["histories", "inputs"], "all addresses up to 2**64, data and lengths, sequences of operations up to the bound",
  "tests use small offsets; accesses across and at the edges of blocks and of the memory are not compared to a reference.",
  ["sparse_memory.py", "memory.py", "address_space.py"], [("block lookup and splitting", "sparse_memory.py SparseMemory.read/write"), ("slices", "sparse_memory.py __getitem__/__setitem__")],
  "")
p("C19", "Word accessors are exact views of the bytes",
  "For every memory, region, window and master, reading or writing words of 1, 2, 4, 8 or any number of bytes in either byte order is the same as reading or writing their byte "
  "representation at that address, with the same options: nothing else changes and every word is returned in order.",
  ["inputs", "configurations"], "all word values, word sizes, counts, byte orders and addresses, for all kinds of memory interface",
  "the tests call a few accessors with one value each.",
  ["memory.py", "address_space.py"], [("word accessors", "memory.py Memory, address_space.py MemoryInterface")],
  "")
p("C20", "An address space sends every byte of an access to the right region, once",
  "An access to an address space reaches exactly the regions which cover its bytes, each with the right local address and part of the data, once and in address order, and a read returns "
  "the concatenation; an access touching any unmapped address fails.  Registered regions never overlap: an overlapping registration is refused.",
  ["inputs", "configurations"], "all region placements, sizes and translation offsets, access addresses and lengths",
  "address spaces have no tests.",
  ["address_space.py"], [("region lookup", "address_space.py AddressSpace.find_regions"), ("splitting", "address_space.py AddressSpace.read/write")],
  "")
p("C21", "Windows and pools stay inside their bounds and report true addresses",
  "Every access through a window or a window pool, nested to any depth, reaches the parent at the same offset within the window and never outside it; out-of-range accesses and windows that "
  "do not fit raise an error without any access.  The absolute address reported for an offset is the address at which the outermost interface is accessed.",
  ["inputs", "configurations"], "all window offsets, sizes, nesting and access ranges",
  "windows are used by no test.",
  ["address_space.py"], [("range check", "address_space.py MemoryInterface.check_range"), ("translation", "address_space.py Window.get_parent_address, get_absolute_address")],
  "")
p("C22", "The allocator and pools hand out disjoint aligned blocks inside the pool",
  "Whatever the order of allocations and frees, every block an allocator or pool hands out lies inside the managed range, has at least the requested size, is aligned to its size rounded up to a power of two, "
  "and does not overlap any block in use; a freed block can be allocated again, freeing everything restores the full capacity, and exhaustion or a wrong free raises an error and changes nothing.",
  ["histories", "inputs"], "all sequences of allocations and frees up to the bound, all sizes of requests and pools",
  "the only test allocates and frees one increasing sequence of sizes from a pool of one size.",
  ["buddy_allocator.py", "address_space.py"], [("splitting and merging", "buddy_allocator.py BuddyAllocator"), ("pools", "address_space.py WindowPool, Pool")],
  "")
p("C23", "Hex dumps show exactly the bytes asked for at their addresses",
  "A hex dump, printed, as lines or as a string, of any memory lists exactly the requested bytes, each in the row and column of its address with its own value and printable character, every row "
  "labelled with its address and the given prefix.",
  ["inputs", "configurations"], "all byte values, start addresses, lengths, row sizes and prefixes up to the bound",
  "no test checks dump output.",
  ["utils.py", "memory.py", "sparse_memory.py", "address_space.py"], [("formatting", "utils.py hexdump_line, hexdump, hexdump_lines, hexdump_str")],
  "", ["the text printed or returned"])
p("C24", "Masters reject exactly the operations they cannot perform",
  "A master operation whose address, range, ID, size or burst type does not fit the bus, or which gives a sideband value for a signal that is not connected, raises an error immediately and "
  "causes no bus activity; every operation that does fit is accepted and performed.",
  ["inputs", "configurations"], "all argument values around and beyond the limits, all combinations of connected sideband signals, immediate and event based calls, AXI, AXI-Lite and APB",
  "the tests pass valid arguments only.",
  ["axi_master.py", "axil_master.py", "apb.py"], [("argument checks", "init_write, init_read, write, read of each master")],
  "")
p("C25", "A peripheral region forwards each access exactly once",
  "An access to a peripheral region calls the wrapped object's read or write exactly once with the same address and data, whether those are plain functions or coroutines, returns its result, and passes on "
  "its exceptions.",
  ["inputs", "configurations"], "all addresses, lengths and data, plain and coroutine objects, objects which raise",
  "peripheral regions have no tests.",
  ["address_space.py"], [("forwarding", "address_space.py PeripheralRegion")],
  "")
p("C26", "A failing target is reported as a slave error and nothing else",
  "If the target of an AXI, AXI-Lite or APB slave model raises an exception, that burst or transfer is answered with the full number of responses and a slave error (on the failing read transfer, "
  "or on the write response), and later transfers are performed and answered normally.",
  ["fault_sequences", "inputs", "schedules"], "any subset of accesses of a sequence failing, all bus parameters within the bounds",
  "no test uses a target that fails.",
  ["axi_slave.py", "axil_slave.py", "apb.py"], [("exception handling", "axi_slave.py, axil_slave.py _process_write/_process_read, apb.py ApbSlave._run")],
  "")
p("C27", "Models that share a memory agree; slave models serve an address space",
  "RAM models of any bus, memory regions and address spaces built over the same byte array or sparse memory are views of one memory: a read through any of them returns what was written last through any of them, "
  "and only the written bytes change.  A slave model whose target is an address space performs each access on the region mapped there, at the translated address, also when that region is the master of another "
  "bus, and answers an access that leaves the mapped regions with a slave error, after which further accesses work normally.",
  ["configurations", "histories", "inputs"], "all sequences (of bounded length) of accesses through any of the components, all addresses, lengths and data within the bounds; regions adjacent, apart, translated and untranslated",
  "the tests use one RAM model at a time, each with a memory of its own, and no test has an address space as target of a slave model or a master as region of an address space.",
  ["axi_ram.py", "axil_ram.py", "apb.py", "axi_slave.py", "axil_slave.py", "memory.py", "sparse_memory.py", "address_space.py"],
  [("shared memory", "memory.py Memory"), ("target of a slave", "axi_slave.py, axil_slave.py, apb.py ApbSlave"), ("decoding", "address_space.py AddressSpace")],
  "regions start and end at multiples of the data bus width, as slave models read whole bus words; what a refused access does to the mapped bytes it covers is not claimed")
p("C28", "Buses use exactly their own signals; optional signals may be absent",
  "A bus made from an entity, from a prefix (with any separator) or from separate channels connects each model to exactly the signals with that prefix, each under its own name: no signal of another bus "
  "of the design is driven or has any influence.  With any subset of the optional signals present, masters, slaves and RAMs perform every operation the signals allow: signals that are present carry the requested "
  "attribute or its default on every transfer, absent strobes mean whole words, absent responses mean okay, user signals of responses are reported exactly when they exist, and stream frames arrive with exactly the "
  "sideband signals that exist.",
  ["configurations", "inputs"], "all subsets of the optional signals of a channel group (the others all present or all absent), all ways to make a bus, all addresses, data and attribute values within the bounds",
  "the test designs have fixed signal lists, nearly all signals present, and only prefixes are used to make buses.",
  ["stream.py", "axi_channels.py", "axil_channels.py", "apb.py", "axis.py", "axi_master.py", "axi_slave.py", "axil_master.py", "axil_slave.py"],
  [("bus construction", "stream.py StreamBus, axi_channels.py AxiBus, axil_channels.py AxiLiteBus, apb.py ApbBus, axis.py AxiStreamBus"), ("presence of signals", "*_present in the masters and slaves, hasattr in stream.py and axis.py")],
  "missing mandatory signals are not claimed; partial words on a bus without strobes are not claimed")

TECH = "symbolic execution of the real Python code (all paths within stated bounds) with z3 deciding every assertion; counterexamples and sampled paths replayed on the unmodified code"
NOTE = ("Every feasible path of the package's own code is executed with symbolic inputs, schedules and payloads inside the bounds listed in the evidence; each assertion is decided by z3 for all "
        "values of a path. Trusted: the event simulator standing in for the HDL simulator, the instrumentation, z3. Nothing is claimed beyond the bounds.")
NA = []
CLAIMED = None      # None: all

if __name__ == "__main__":
    import sys
    sys.path.insert(0, D)
    have = set(json.load(open(os.path.join(D, "claimed.json"))))
    with open(os.path.join(D, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=NA)
    for q in P:
        if q["id"] in have:
            m["checks"].append(dict(property=q["id"], quick_cmd=f"./run.py {q['id']} --tier quick", thorough_cmd=f"./run.py {q['id']} --tier thorough",
                                    technique=TECH, level="model_checking", level_note=NOTE + (" " + q["_note"][0].upper() + q["_note"][1:] + "." if q["_note"] else "")))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason="no check yet: the harness for this property is still being written"))
    json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(m["checks"]), "checks")
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        n = q["statement"].replace(":", "").count(". ") + 1
        if n > 3:
            print(q["id"], "sentences", n)
