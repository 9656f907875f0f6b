#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Run after editing the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, E, F = "model_checking", "exploration", "fault_enumeration"
DFS = "stateless exhaustive exploration of the real code (depth-first over all choice vectors)"
SWEEP = "bounded-exhaustive enumeration of inputs executed on the real code"
REF = "explicit reference model run in lockstep with the real code over every history within bounds"
T = {
 "A01": (E, SWEEP + ", independent decoder as oracle", "Every value tree within depth/width bounds over a boundary alphabet, all string lengths around every boundary, every short sequence on one stream. Trusts the harness's own AMF0 reader and canonical form."),
 "A02": (M, REF + " (grammar-generated AMF0 streams)", "Every AMF0 byte stream of the grammar within the size bound, on fresh and used decoders, including every reference index; the model is an AMF0 decoder written from the specification. Nesting above 1000 is out of scope."),
 "A03": (E, SWEEP + ", independent decoder as oracle", "As A01 for AMF3 and for AMF3 embedded in AMF0. Integers beyond 2^53 are compared as the nearest double."),
 "A04": (M, REF + " (grammar-generated AMF3 streams)", "Every AMF3 byte stream of the grammar within the size bound, all trait flag combinations and table references; the model is an AMF3 decoder written from the specification."),
 "A05": (E, "exhaustive enumeration of read schedules (all compositions of short messages, all split points of long ones) on the real decoders", "Baseline is the whole message in one read; covers one-byte, empty and data-with-EOF reads."),
 "A06": (F, "exhaustive fault enumeration: every cut, every reader failure point, every byte string within bounds", "Every prefix of every corpus message, a reader error at every byte, every byte string up to the bound over the stated alphabets; crashes and hangs are attributed by the supervising process."),
 "A07": (E, "exhaustive sweep of the 29-bit integer domain (thorough: all 2^29 values; quick: boundaries and a complete window set)", "Integers encoded and decoded with the real codec, form and minimality read by the harness."),
 "A08": (M, REF + " (add/remove histories)", "Every history of add/remove operations over every first-value encoding and tail in the alphabet."),
 "A09": (E, SWEEP + ", measuring allocation", "Every length-bearing construct with every boundary length and short tails; allocation is measured with the runtime's own counters against a bound of 4 MiB plus 64 times the input." ),
 "W01": (F, "exhaustive fault enumeration over every write call and every output byte of every output operation and history", "Six failure kinds (refused, cut at a byte, taken but reported as failed; once or for good). Short writes without an error violate io.Writer and are out of scope."),
 "I01": (M, "controlled cooperative scheduler: every interleaving of two or three scripts up to a preemption bound, plus the race detector on free-running pairs", "Preemption bound 2 for pairs and 1 for triples (thorough: 3 for pairs of the same kind); switch points at operation boundaries and inside all callbacks. The race-detector pass supplements the enumeration for straight-line code."),
 "N01": (M, DFS + ", guarded caller buffers compared after every operation", "Every operation sequence within the bound on every packet kind, also bytes next to the data in the caller's buffer; every value, metadata map and SIP value of the alphabet through every entry that takes it."),
 "N02": (M, "exhaustive differential exploration: every history executed with separate and with reused, overwritten buffers", "Every session history, every pair of AMF messages, every SIP sequence within bounds. Packets handed to the GOP cache and bodies given to message builders are handed over by design."),
 "F01": (E, SWEEP + ", independent FLV tag reader as oracle", "All boundary timestamps and body lengths, every short order of packet kinds."),
 "F02": (M, REF + " (saves, muxing, output switches, header requests)", "Model of saved headers and outputs compared after every operation."),
 "F03": (E, SWEEP + ", bit-level reference of the media headers", "All 65536 first two bytes, boundary (thorough: all 2^24) composition times, all ordered pairs on a reused tag."),
 "P01": (E, SWEEP + ", reference converter", "Every sequence of NAL units over type and length alphabets after every header history in the alphabet."),
 "P02": (M, REF + " (sequence header histories)", "Every history of valid and malformed headers and key frames within the depth bound."),
 "P03": (M, REF + " (AAC header and frame histories)", "All configurations, all frame lengths, all histories within the depth bound; ADTS read back bit by bit."),
 "P04": (M, REF + " (routing and sample rate)", "One audio codec per stream; the MP3 rate defect is a listed finding and only its exact wrong value is accepted."),
 "P05": (M, "exhaustive differential exploration: every short byte string behind every media header, with and without the refused packet", "Crash, hang, leaked output and poisoning are judged against a run without the refused packet."),
 "T01": (M, "model checking of the real muxer against an independent TS/PES demuxer for every payload length and pair of kinds", "All payload lengths in range, all ordered kinds. The padding of small key frames is a listed finding recognised by its exact byte layout."),
 "T02": (M, REF + " (continuity counter automaton)", "All operation sequences within the depth bound and long periodic ones past counter wraps."),
 "T03": (E, SWEEP + ", bit-level PES/PCR reader", "All pairs of boundary timestamps for every media kind."),
 "T04": (M, REF + " (saved media and table contents)", "PAT/PMT/SDT read by an independent section parser; two listed findings about the PCR PID are recognised exactly."),
 "T05": (E, "exhaustive comparison with a bitwise CRC for all strings up to the bound, and every byte after a state-covering prefix set", "The table-driven CRC has one 32-bit state; each table entry is exercised from every state-covering prefix."),
 "T06": (M, REF + " (audio cadence automaton)", "Every sequence of source-time steps over a boundary alphabet, every sample rate, every base time."),
 "T07": (M, "end-to-end exhaustive exploration: FLV packets to TS, demuxed independently", "Every packet sequence within the depth bound with every time base; small key frame padding is the same listed finding as T01."),
 "T08": (M, REF + " (descriptor sequences)", "Name lengths 0..300, pairs around the limits, every sequence within the depth bound; the country descriptor length is a listed finding."),
 "G01": (M, REF + " (queue of groups)", "Every write history within the depth bound for caches of 0..5 groups, rings to 40 groups."),
 "G02": (M, REF + " (stream cache)", "Every history of eleven packet kinds within the depth bound; replay compared by identity after each step. End-of-sequence packets are out of scope."),
 "G03": (M, REF + " (group size limit)", "Every history of key frames and frame runs around the 1024 limit."),
 "S01": (E, SWEEP + ", independent SIP reader plus round trip", "Every combination within the alphabet, every body length in range. Folding of several values into one is a listed finding recognised exactly."),
 "S02": (M, "exhaustive enumeration of message sequences and read splits against a stream model", "Every sequence of up to three messages, every split of short streams. Missing blank line of body-less built messages is a listed finding."),
 "S03": (E, "bounded-exhaustive enumeration of strings per parser, every truncation and substitution of valid messages", "Panics and hangs are attributed by the supervising process."),
 "S04": (M, REF + " (header map)", "Every standard header, form, case pattern, multiplicity and folding within bounds."),
 "S05": (E, SWEEP + ", part-by-part comparison", "Every combination of parts within the alphabet in each documented textual form."),
 "S06": (M, REF + " (argument map)", "Every list within the length bound, every history of set/get/delete."),
 "S07": (E, "exhaustive sweep of methods, versions and codes with all case patterns and single-character edits", "Reason phrases from the RFC tables in the harness; code 480 may carry either of its two texts."),
 "A10": (M, "exhaustive exploration of operation histories on one codec object, compared with a fresh one", "Every sequence of three operations over 18 failing ones and 10 probes, every failing operation repeated past the nesting limit, every cut of every corpus message. Probe values contain no references."),
 "J01": (M, REF + " (cache, demuxer and both mixers end to end, two consumers)", "Every history of eight packet kinds within the depth bound, every join point. Every consumer demuxes its own packet object over the shared data."),
 "T09": (M, REF + " (output switches, read part by part by an independent receiver)", "Every history of ten operations within the depth bound. Key frames are larger than one TS packet; smaller ones are judged under T01."),
 "S08": (M, REF + " (typed header fields, setters and digest parameters)", "Every combination of typed header lines and every setter history within bounds; header values are well-formed."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert set(props) == set(T), set(props) ^ set(T)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks drive the unmodified public API of /repo; no hooks are needed. ./check.sh replay FILE re-executes a recorded violation. Known findings: known_findings.txt."}
for p in props:
    l, t, n = T[p]
    m["checks"].append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p, "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
