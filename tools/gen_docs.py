"""Writes properties.jsonl and MANIFEST.json (kept in step with each other)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CT, DP, RT = ("blocking_cache/BlockingCacheCtrlRTL.py", "blocking_cache/BlockingCacheDpathRTL.py",
              "blocking_cache/BlockingCacheRTL.py")
AR, UT = "blocking_cache/units/arithmetics.py", "blocking_cache/units/UpdateTagArrayUnit.py"
MS, SE = "blocking_cache/units/MSHR.py", "blocking_cache/units/StallEngine.py"
SR = ["sram/SramPRTL.py", "sram/SramGenericPRTL.py"]
REG = "blocking_cache/units/registers.py"
ALL = [RT, CT, DP, AR, UT, MS, SE] + SR
HIST = "every finite or infinite history of legal requests (READ, WRITE, AMO, INV, FLUSH), memory latencies, ready patterns and resets, every " \
       "address and every data value; caches of the listed sizes, associativities and widths"
WHY = "Tests drive a handful of directed sequences and a few hundred random requests on a few configurations; the " \
      "claim quantifies over all request histories, stall patterns and memory timings, and the corner cases need " \
      "several of them to line up."
PROOF = "contract-based deductive verification of the extracted RTL: inductive invariant and per-cycle contracts, z3"
NOTE = "Unbounded in time, address, data and stall pattern for each listed configuration (14 quick, 36 thorough). " \
       "Trusts the mechanical extraction (cross-checked against the simulator each run), z3 and PyMTL3's semantics; " \
       "a tree the extractor cannot read falls back to a labelled bounded search."
P = []


def prop(id, title, statement, text=HIST, over=("inputs", "histories", "schedules", "configurations"), why=WHY,
         files=ALL, state=(), mech=(), observe=(), technique=PROOF, level="proof", note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files),
                  state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                  mech=[dict(name=a, where=b) for a, b in mech], observe=list(observe),
                  technique=technique, level=level, note=note))


CPORT = "client port (mem_minion_ifc): requests accepted, responses"
MPORT = "memory port (mem_master_ifc): requests sent, responses"

prop("P01", "Reads return the most recent value",
     "A READ answered by the cache returns, for every byte it covers, the value of the last WRITE or AMO answered "
     "before it at that byte, or what memory holds if there was none, whatever hits, misses, evictions, flushes, "
     "invalidations and stalls happened in between. Bits of the response beyond the bytes requested are zero. A byte "
     "that another agent changed in memory is exempt until the client's next INV, AMO or WRITE of it.",
     state=[("data array", "line contents", DP), ("tag arrays", "tag, valid and dirty-word bits", DP),
            ("pipeline registers M0-M2", "requests in flight", DP), ("MSHR", "the miss being served", MS)],
     mech=[("transaction selection and stalls", CT + " transaction_logic_M0, status_logic_M1, cs_table_M1/M2"),
           ("write enable generation", AR + " WriteBitEnGen"), ("tag update", UT),
           ("read data selection", "blocking_cache/units/muxes.py FastDataSelectMux")], observe=[CPORT])
prop("P02", "One response per request, in order, with its own tag",
     "Every accepted request (READ, WRITE, AMO, INV, FLUSH) is answered at most once, in order of acceptance, and nothing else "
     "is ever answered. "
     "The response carries the request's type, opaque and len; responses to WRITE, INV and FLUSH carry data 0. The "
     "cache never accepts more requests than it has room for.",
     mech=[("response fields", DP + " cacheresp"), ("ready and enable", CT + " cachereq_rdy, cs_table_M2")],
     observe=[CPORT])
prop("P03", "Write-backs carry exactly the words written",
     "A WRITE sent to memory marks in its mask only words the client has written since they were last written back, "
     "and every byte of a marked word carries the newest value the client wrote or should read there. The mask is "
     "never empty. So evictions and flushes neither lose client data nor overwrite with stale data words that only "
     "other agents wrote.",
     state=[("dirty-word bits", "words newer than memory", UT)],
     mech=[("dirty bits on write", UT + " new_tag_array_entry_logic"), ("dirty detection", AR + " TagArrayRDataProcessUnit"),
           ("write mask", CT + " ctrl_dirty_evict_mask_M1")], observe=[MPORT])
prop("P04", "FLUSH leaves memory up to date",
     "When a FLUSH is answered, every byte the client has written is in memory with its newest value, no word is "
     "newer in the cache than in memory, and every memory request it caused has been acknowledged. This holds "
     "whatever was cached, including lines invalidated while dirty.",
     mech=[("flush walk", CT + " fsm_M0_next_state, up_flush_tag_read_logic_M1, cs_table_M1")], observe=[CPORT, MPORT])
prop("P05", "INV drops clean data and never loses dirty data",
     "After an INV is answered, the next access to any line reaches memory again, so a word the client has not "
     "written shows what other agents wrote there. Words the client wrote before and that were not yet written back "
     "keep their value through INV: they are read back merged with the refetched line and reach memory by a later "
     "eviction or FLUSH. INV itself sends nothing to memory.",
     mech=[("invalidate walk", CT + " fsm_M0_next_state"), ("dirty mask on refill", DP + " write_mask / WriteBitEnGen"),
           ("invalid-dirty hit", AR + " TagArrayRDataProcessUnit")], observe=[CPORT, MPORT])
prop("P06", "AMOs are performed in memory on the newest value",
     "Each AMO is forwarded to memory exactly once with the client's type, opaque, address and word operand, and only "
     "after the newest value of that word has reached memory; if the cache held the line dirty, only that line is "
     "written back for it. The client gets the old word memory returned, zero-extended, and the line is no longer "
     "cached, so the next access refetches it.",
     mech=[("AMO path", CT + " cs_table_M1, MSHR"), ("tag invalidation", UT)], observe=[CPORT, MPORT])
prop("P07", "Both ports keep the enable/ready protocol",
     "The cache raises enable on its response and memory request ports only when the other side is ready, is always "
     "ready for a memory response it is owed, has at most two memory requests outstanding, and decides its own ready "
     "signals without looking at the same port's enable or message. Every memory request is a READ, WRITE or AMO; READ "
     "and WRITE concern exactly one whole line-aligned line.",
     mech=[("handshakes", CT + " cachereq_rdy, memresp_rdy, cs_table_M2")], observe=[CPORT, MPORT])
prop("P08", "The test bit is truthful and memory traffic is minimal",
     "The response's test field is 1 exactly for a READ or WRITE that was served without fetching its line. A line is "
     "fetched only for the request that misses, once; a write-back happens only for a FLUSH, AMO or miss, at most one "
     "per miss or AMO, before the fetch, and of a line of the same set; a hit causes no memory traffic.",
     mech=[("hit detection", AR + " TagArrayRDataProcessUnit"), ("eviction decision", CT + " status_logic_M1")],
     observe=[CPORT, MPORT])
prop("P09", "Replacement keeps the most recently used lines",
     "A line accessed by READ or WRITE stays cached until an INV, an AMO to it, or, in a two-way cache, accesses to "
     "two other different lines of its set after it (one in a direct-mapped cache): until then it hits and is not "
     "fetched again.",
     files=[CT, DP, "blocking_cache/units/ReplacementPolicy.py", REG],
     state=[("replacement bits", "way to replace next, per set", REG)],
     mech=[("replacement policy", "blocking_cache/units/ReplacementPolicy.py pointer_logic")], observe=[CPORT, MPORT])
prop("P10", "Every request is answered and the cache gets ready again",
     "If client and memory keep making progress (responses are taken, memory accepts requests and answers them), every "
     "accepted request is answered after finitely many such cycles, never more than a bound linear in the number of "
     "lines for FLUSH and INV. With no request pending and initialization over, the cache is ready for the next "
     "request.",
     over=("inputs", "histories", "schedules", "configurations"),
     mech=[("stall logic", CT), ("MSHR replay", MS)], observe=[CPORT, MPORT],
     note=NOTE + " Liveness is proved by a ranking function that never grows and strictly falls in each cycle in "
                 "which neither side holds the cache up.")
prop("P11", "Reset forgets everything",
     "One cycle of reset, applied at any moment and from any internal state, puts the cache back to its initial "
     "behaviour: no earlier request is answered afterwards, no line cached before is served as a hit, and nothing "
     "written before is written back later.",
     mech=[("initialization walk", CT + " M0_FSM_STATE_INIT")], observe=[CPORT, MPORT])
prop("P12", "Legal use never crashes the model",
     "Every supported configuration (lines of 64 to 512 bits, data ports of 32 to 128 bits, one or two ways, any power of two "
     "of at least two sets) elaborates, and for every history of legal requests (READ, WRITE, AMO, INV, FLUSH; not the "
     "testing-only WRITE_INIT) no evaluation of the cache model raises an error such as an out-of-range index or a width "
     "mismatch.",
     mech=[("all update blocks", "blocking_cache/")], observe=["simulation errors"])

FL = ["blocking_cache/BlockingCacheFL.py"]
PYX = "contract-based deductive verification of the real Python methods: symbolic execution of every path, " \
      "pre/postconditions and representation invariant, z3"
prop("P13", "The functional model is a correct memory",
     "In every sequence of operations on the functional model, from any initial memory image, a read returns, zero-extended, "
     "the bytes last stored at its address by image, write, init or AMO (0 if none), and no operation changes a byte it does "
     "not cover. An AMO returns the old word and stores exactly the named operation's result (add, and, or, swap, min and max "
     "signed and unsigned, xor). Legal operations raise nothing, and each records exactly one request and one response with the "
     "right type, opaque, address, length and data.",
     text="every sequence of legal operations: any address, aligned offset, length, value and opaque, any prior "
          "contents of model memory and tracker; caches of the listed sizes, associativities and widths",
     over=("inputs", "histories", "configurations"),
     why="The model is the oracle of all random tests, and nothing tests the oracle: a wrong model and a wrong cache "
         "can agree, and untouched lines, high addresses and rare AMO operand pairs are hardly sampled.",
     files=FL, state=[("ModelCache.mem", "line address to line contents", FL[0])],
     mech=[("read/write/init/amo/invalidate/flush", FL[0] + " ModelCache"), ("AMO arithmetic", FL[0] + " AMO_FUNS")],
     observe=["ModelCache.get_transactions()"], technique=PYX,
     note="Unbounded in address, data, history and memory contents for each listed configuration (9 quick, 19 "
          "thorough). Trusts the proxy values that stand for Bits/int (compared with PyMTL3's on random operations each run), "
          "CPython and z3. A tree the executor cannot follow falls back to a labelled bounded search.")
prop("P14", "The functional model predicts hits and misses as LRU",
     "The functional model's hit/miss tracker is an exact LRU cache: a READ, WRITE or INIT hits exactly if its line is "
     "valid, a miss replaces the least recently used way of its set, any access makes its way the most recently used, and other "
     "sets are never touched. An AMO invalidates only its own line and makes that way the next victim; INV clears every line "
     "and keeps the recency order. The test field of each recorded response is the hit bit for READ and WRITE and 0 otherwise.",
     text="every sequence of operations and every tracker state reachable or not that satisfies the representation "
          "invariant; caches of the listed sizes, associativities (1, 2, 4, 8) and widths",
     over=("inputs", "histories", "configurations"),
     why="The tracker is the oracle of the hit/miss tests; whether its bookkeeping is right for every access order and "
         "every associativity is not tested at all.",
     files=FL, state=[("HitMissTracker.line/valid/lru", "tags, valid bits and recency order per set", FL[0])],
     mech=[("access_address, refill, lru_hit, amo_req, invalidate", FL[0] + " HitMissTracker")],
     observe=["HitMissTracker.access_address", "test field of recorded responses"], technique=PYX,
     note="As P13. The per-set arrays are symbolic: one proof covers every set index and every tag.")
prop("P15", "The SRAM writes only enabled bits and holds its output",
     "A write to the SRAM changes exactly the enabled bits of the addressed word and no other word, and nothing changes while "
     "the port is disabled. A read delivers the word's current contents one cycle later. In every cycle without a read the "
     "read data keeps its value, and it never depends on inputs of the same cycle.",
     text="every contents, index, data, bit-enable and history, for each listed (num_bits, num_words)",
     over=("inputs", "histories", "configurations"),
     why="Tests write whole words on two or three shapes; per-bit enables, output hold between reads and untouched words "
         "quantify over all contents and histories.",
     files=SR, state=[("ram", "memory contents", SR[1]), ("dout", "read register", SR[1])],
     mech=[("read, write, output logic", SR[1])], observe=["port0_rdata"],
     technique="contract-based deductive verification of the extracted RTL: pre/postconditions per cycle, z3",
     note="Each shape is a separate proof (9 quick, 16 thorough), unbounded in contents and time. Same trusted base as P01. "
          "The Verilog wrapper of the foundry SRAM is in P19.")
prop("P16", "Hits, misses and maintenance take the documented cycles",
     "Counting only cycles in which the client takes responses, memory takes requests and no memory request is outstanding: "
     "a READ or WRITE hit is answered in the second cycle after it was accepted, a READ hit makes the cache refuse no request, "
     "and a WRITE hit at most for one cycle. A miss or AMO sends its write-back, if any, in the second cycle and its fetch or "
     "AMO by the next one, and its answer follows four cycles (AMO: three) after memory's. INV takes at most lines+3 cycles, "
     "FLUSH lines+3 plus three per line written back, and after reset the cache is ready within one cycle per line.",
     files=ALL, mech=[("pipeline, stall and replay timing", CT), ("write-hit-clean bubble", CT + " is_write_hit_clean_M0")],
     observe=[CPORT, MPORT],
     why="Tests check values and order, hardly ever latency; a lost or added bubble in some combination of hits, stalls and "
         "write-backs passes all of them while breaking the documented pipeline timing.")

prop("P17", "Caches sharing a memory stay coherent under FLUSH and INV",
     "When several of these caches share a memory and the programs keep the documented discipline (only one client at a time "
     "has unflushed writes to a word; a client uses FLUSH to publish its writes and INV before it reads another's), a READ "
     "after INV returns the value last written by any client, for every interleaving and memory timing. After FLUSH no stale "
     "value is left in memory, and AMOs by several clients on one word each find the newest value and none is lost.",
     files=ALL + ["blocking_cache/test/MultiCacheTestCases.py"],
     mech=[("INV, FLUSH and AMO handling", CT)], observe=[CPORT, MPORT],
     why="Tests run a few hand-written two-cache sequences; the claim quantifies over all interleavings of requests, "
         "write-backs, fetches and AMOs of several caches.",
     technique="contract-based deductive verification: the proof of the single-cache contract on the extracted RTL, and a "
               "lemma over that contract for 2 and 3 caches, inductive invariant, z3",
     note=NOTE + " The lemma takes each cache as its contract only; proved for 2 and for 3 caches.")

UN = "blocking_cache/units/"
prop("P18", "Library components compute what they document",
     "For every input and internal state, each component of the unit library does what it documents: both data-select muxes "
     "deliver the aligned sub-word zero-extended (the low word for an AMO, zero when disabled), the replicator repeats a "
     "sub-word over the line, the bit-enable generator enables exactly the accessed bytes or the non-dirty words, the tag "
     "units look up and rewrite tag entries. The counters, the replacement unit, the replacement bits, the MSHR and the "
     "stall engine step as documented from any state.",
     text="every input value and register state; components instantiated at the listed widths and geometries",
     over=("inputs", "histories", "configurations"), files=[UN + f for f in (
         "muxes.py", "arithmetics.py", "counters.py", "registers.py", "ReplacementPolicy.py", "UpdateTagArrayUnit.py",
         "MSHR.py", "StallEngine.py")],
     mech=[("DataSelectMux, FastDataSelectMux", UN + "muxes.py"), ("WriteBitEnGen, DataReplicator, "
           "TagArrayRDataProcessUnit", UN + "arithmetics.py"), ("CounterEnRst, CounterUpDown", UN + "counters.py")],
     observe=["ports of each component"],
     why="Unit tests check some vectors of four components at two widths; two of the components are not used by the cache "
         "and are tested by nothing else.",
     technique="contract-based deductive verification of the extracted RTL: pre/postconditions per component, z3",
     note="Unbounded in inputs, states and time; each (component, width, geometry) is a separate proof. Same trusted "
          "base as P01. The load ports of CounterEnRst are connected to nothing in its body and have no contract.")

WR = "sram/brg_gf14_sram_generic_synopsys.v"
prop("P19", "The generated Verilog behaves as the cache model",
     "For each supported configuration, blocking_cache/translate.py writes BlockingCache_<size>_<clw>_<abw>_<dbw>_<asso>.v "
     "holding a module of that name, and this SystemVerilog behaves cycle for cycle as the PyMTL3 cache of the same "
     "parameters: started in the same state, under every sequence of inputs, every output is the same. With --replace-sram, "
     "the SRAMs of the sizes that have a foundry macro become the SRAM wrapper with their own width and depth, and nothing "
     "else changes. The wrapper, at every size, writes exactly the enabled bits of the addressed row when selected for "
     "writing, and delivers the addressed row one cycle after being selected for reading.",
     text="every state, input and history, for each listed configuration; for the wrapper every content, row, data and "
          "bit-enable, for each listed size",
     files=ALL + ["blocking_cache/translate.py", WR],
     state=[("ram, q", "memory contents and read register of the wrapper", WR)],
     mech=[("main, replace_sram", "blocking_cache/translate.py"), ("SramGenericPRTL, gf14_sram_*", WR)],
     observe=["file written by translate.py", "ports of the generated module"],
     why="No test of the suite runs translate.py or reads the wrapper, and simulation of either samples a few sequences; "
         "equality in every state and the wrapper's macro sizes are reached by none.",
     technique="contract-based deductive verification of the emitted SystemVerilog, extracted on every run: per-signal "
               "one-step equivalence with the extracted model, memory contract for each SRAM module, z3",
     note="Unbounded in time, state and inputs for each listed configuration (14 quick and 3 with --replace-sram; 36 and 9 "
          "thorough; 11/18 wrapper sizes). Trusts the extraction of both languages, z3 and PyMTL3's semantics; the two "
          "foundry macros that are not in the repository are assumed. Two-valued; initial contents are taken as equal.")

MM, PA, ST = "mem_ifcs/MemMsg.py", "blocking_cache/CacheDerivedParams.py", "blocking_cache/cacheStructs.py"
prop("P20", "Message types and derived geometry fit every parameter",
     "For every opaque, address and data width, mk_mem_msg builds a request with the fields type_ (4 bits), opaque, addr, "
     "len (clog2 of the data bytes), wr_mask (one bit per 32-bit word, left out on demand) and data, and a response with test "
     "(2 bits) in place of addr, in this order and packed most significant first. The type codes, their Bits constants and "
     "their trace names agree and are the documented ones. For every power-of-two size, line and data width and 1 or 2 ways, "
     "the derived widths fit together: sets x ways x line size is the cache size, address = tag, index, offset, a tag row is "
     "valid bit, one dirty bit per word and tag, and pipeline and MSHR entries are as wide as what they carry.",
     text="every width and size parameter within PyMTL3's limit of 1023-bit signals", over=("inputs", "configurations"),
     files=[MM, "constants/constants.py", PA, ST],
     mech=[("mk_mem_req_msg, mk_mem_resp_msg, mk_mem_msg", MM), ("CacheDerivedParams.__init__", PA),
           ("mk_addr_struct, mk_tag_array_struct, mk_pipeline_msg, mk_MSHR_msg", ST)],
     observe=["fields and widths of the message classes", "attributes of CacheDerivedParams"],
     why="Tests build a handful of message types and a dozen caches, nearly all with 32-bit addresses and 8-bit opaque "
         "fields; the claim is about all parameter values.",
     technique="contract-based deductive verification: symbolic execution of the real constructor functions on symbolic "
               "integers, postconditions per function, z3",
     note="All parameter values at once (widths are symbolic integers, power-of-two sizes have symbolic exponents). Trusts the "
          "symbolic integers, z3 and PyMTL3's mk_bits, mk_bitstruct and clog2; the type codes are enumerated completely.")

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"], mechanism=p["mech"], observe_at=p["observe"],
                             hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -W ignore tools/setup.py", checks=[], not_applicable=[
        dict(property=a, reason=b) for a, b in NA])
    na = {a for a, _ in NA}
    for p in P:
        if p["id"] in na:
            continue
        assert len(p["title"]) <= 80, p["id"]
        m["checks"].append(dict(
            property=p["id"], quick_cmd=f"/opt/venv/bin/python -W ignore check.py {p['id']}",
            thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python -W ignore check.py {p['id']}",
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
