#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed checks below; every other property is not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
FLOW = "path-sensitive interprocedural must-fact dataflow on LLVM IR"
BOUNDS = "bounds and abort proof by goal-directed linear reasoning over guards and loop invariants on inlined LLVM IR"
C = {
 "C01": (BOUNDS, "Every read, write, abort and division in the packet parsers, extension readers, depacketizers and feedback handlers that depends on received bytes is an obligation; all must be discharged from the guards on every path. Exclusions are listed in DESIGN.md."),
 "C02": (BOUNDS, "Every read, write, abort and division in the SCTP and data channel code is an obligation that must be discharged from the guards on every path. Exclusions are listed in DESIGN.md."),
 "C03": (BOUNDS, "Every read, write, abort and division in the STUN code, the demultiplexer and the STUN part of the candidate is an obligation that must be discharged from the guards on every path. Exclusions are listed in DESIGN.md."),
 "C04": (BOUNDS, "Every read, write, abort and division in the packetizers and frame inspection helpers is an obligation that must be discharged from the guards on every path. Exclusions are listed in DESIGN.md."),
 "C05": (FLOW, "Every path to a delivery, state write or success return crosses the integrity check; sound for the analysed call graph, trusts the models of the OpenSSL calls."),
 "C06": (FLOW, "Every path to decryption and to acceptance crosses the replay test and records the packet only after authentication."),
 "C08": (FLOW, "Every path to answering a request, consuming a transaction or moving connection progress crosses the integrity verification with the session's credentials."),
 "C09": (FLOW, "Every path to chunk processing crosses the checksum and verification tag tests; cookie use and channel delivery likewise."),
 "C10": (FLOW + " plus provenance of every sent buffer", "Every call that reaches the network and every insertion into the raw send queue is enumerated and traced to its producer."),
 "C07": (FLOW, "Every path to key derivation, sender creation, SCTP start and the Completed state crosses handshake, certificate and fingerprint tests."),
 "C12": ("result-propagation analysis of every failable cryptographic call, interprocedural on LLVM IR", "Every call of the enumerated failable primitives must have its result tested on every path before its output is used; wrappers must propagate the failure."),
 "C11": ("byte-level provenance by partial evaluation of the LLVM IR per negotiated cipher suite, plus path-sensitive dataflow", "For every SRTP/SRTCP protection and receive function and every suite: which bytes are encrypted, authenticated and compared, and under which key and IV, is computed symbolically from the source and compared with RFC 3711/7714."),
 "C13": ("byte-level provenance by partial evaluation of the LLVM IR per negotiated cipher suite and DTLS role", "The exporter label, the split of the exported block, the DTLS role selection and the AES-CM key derivation are computed symbolically and compared with RFC 5764/3711."),
 "C14": ("value provenance and path-sensitive must-fact dataflow on LLVM IR", "Every outgoing packet's index is traced to one fresh draw from one counter; the counters' arithmetic is checked symbolically for wrap and no wrap; the IV layout maps different indices to different IVs."),
 "C15": ("interprocedural lockset analysis with thread roles on LLVM IR", "Every access to a member of the connection object is given the roles (application, worker) that reach it and the locks held on every path to it; every changing member of the schedulers is accessed with the scheduler's mutex; threads start after the members they use. Members of tracks, statistics objects and the jitter buffer are not covered."),
 "C16": ("interprocedural lock-order and held-lock analysis on LLVM IR", "Every acquisition, wait, join and application callback is given the locks held on every path to it: no cycle in the order, no second acquisition, no wait or join under a lock the other side needs, no callback under the state lock, no scheduler thread waiting for itself. Destructors run by the release of a shared pointer are not followed."),
 "C18": (FLOW, "Every store of the connection state lies behind tests that it is neither failed nor closed and differs, is reported to the listener on every path, and connected is entered only on paths where the candidate's handshake completed or a packet under its keys was authentic."),
 "C20": (FLOW, "On every path of the association: a numbered fragment is stored before the function returns or numbers another, the retransmission timer runs when a function entered from outside returns with fragments stored, the timer task sends a stored fragment and starts the timer again, and a stored fragment is dropped only behind a full-width test of its number against a received acknowledgement. Dropping of queued messages that were never handed to the network is not covered."),
 "C21": (FLOW, "Every delivery of a data chunk lies behind a signed 32 bit test of its number against the cumulative point and a search of the numbers received out of order, and behind the recording of the number; the cumulative point moves only by one number that was just received or recorded; recorded numbers are forgotten only when passed or for a new association."),
 "C23": (FLOW, "Every growth of the send queues, every installation of an offer or answer, and the start of the worker are dominated on every path by the tests of direction, state, track, negotiation and repetition that the call's contract names."),
 "C22": ("partial evaluation of the codec dispatch per enumerator on LLVM IR", "For each enumerator of the codec enumeration the implementation class made, the media kind and the offered name are computed from the source, and the answer parser's reading of that name compared; exhaustive over the enumeration."),
 "C24": (FLOW, "Every path to the construction of an answer crosses the tests for credentials, fingerprint, candidate, media or data, and multiplexed control packets; errors of line handlers are not dropped; each track needs a media codec."),
 "C25": ("value classification (raw, difference, extended) of wrapping counters by interprocedural def-use analysis on LLVM IR", "Every ordered comparison in the sequence number code is classified; one over raw wrapped values is reported. Counters are recognised by the declared names of fields, parameters and accessors."),
 "C26": ("format string, argument kind and string provenance lint over every formatting call on LLVM IR", "Every call of a printf-family function or of a project function forwarding to one: constant format, conversions match the arguments, strings are terminated and alive, output bounded."),
}
NA = {
 "C17": "Not decided here: an analysis of task ownership and handle reuse was prototyped but not validated against planted bugs and refactorings, so it is not claimed. Its handle clause also rests on facts about time (a probing task fires before its next period starts) that no static argument here settles.",
 "C19": "Whether a container is emptied as fast as received traffic fills it depends on run-time rates, timers and the application; the explicit caps are local constants, but no static argument in reach bounds the growth over all histories (resets and drains happen in other events). Memory safety of the same code is decided by C01 to C03.",
 "C27": "Releases happen in destructors run by the last reference of shared pointers, by moved-from temporaries and by OpenSSL's own reference counts (SSL owns its BIOs); deciding exactly-once release needs an ownership model of these that the analysis does not have, and a syntactic pairing of acquire and release would not be sound.",
 "C30": "Delivery order and completeness depend on run-time arrival histories, deadlines and buffer arithmetic over unbounded histories; no sound static argument in reach bounds them.",
 "C31": "Equality of a frame after a packetize/depacketize round trip is a relational property of data contents over all inputs; static analysis in reach cannot decide byte equality.",
 "C32": "Numerical truth of measured times and losses quantifies over run-time clocks and histories; there is no static oracle.",
 "C33": "Pacing is a property of real time and event loop timing, which is not visible in the source.",
 "C34": "The size of a protected packet depends on run-time extension sizes, parameter sets and the application's MTU; no static bound exists in the code to check against.",
 "C35": "End-to-end ordering and integrity under arbitrary loss and reordering is a protocol-history property; the parts that are static facts are claimed as C20 and C21.",
 "C36": "Timeliness of retransmission depends on run-time clocks and histories.",
}
TODO = "No check has been built for this property yet."
try:
    exec(open(os.path.join(HERE, "tools", "claims.py")).read())
except FileNotFoundError:
    pass
m = {"version": 1, "setup_cmd": "make -s -j8 -C sa", "checks": [], "not_applicable": []}
for i in props:
    if i in C:
        t, note = C[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": "static analysis: " + t, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, TODO)})
m["notes"] = "Static analysis only; see DESIGN.md. Accepted and repaired defects: known-findings.txt."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
