#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": "exhaustive enumeration of a bounded packet space on the real encoder and decoder, compared with a reference model (round trip)",
 "C02": "exhaustive enumeration of a bounded packet space; every emitted frame replayed through an independent MQTT 5 reference parser (explicit-state)",
 "C03": "exhaustive enumeration of model traces (well-formed frames of the reference encoder in every order and form) replayed against the implementation",
 "C04": "exhaustive enumeration of bounded inputs (raw frames, edits, headers, packet values) on the real code with panic, abort and hang monitors",
 "C05": "exhaustive enumeration of frames and frame sequences on the real decoder; stream position compared with the model after every step",
 "C06": "exhaustive enumeration of arrival schedules (all cuts of short streams, deviation-bounded cuts of longer ones) on the real decoder",
 "C07": "exhaustive enumeration of (header, bytes present, limit) states and limit histories on the real decoder against the model",
 "C08": "exhaustive enumeration of a bounded packet space; size query, returned count and appended bytes compared",
 "C09": "exhaustive enumeration of encode/decode/forward operation sequences on the real code against a FIFO model",
 "C10": "exhaustive enumeration of representable and unrepresentable packets and of histories with failing encodes (fault positions) against the model",
 "C11": "exhaustive enumeration of malformed frames (all single edits, bounded double edits, all short raw frames) against the reference parser",
 "C12": "exhaustive enumeration of property sections (sequences, orders, every declared length) against the reference parser",
 "C13": "lock-step exhaustive enumeration of frames and packets over all four configurations in one process (product exploration)",
 "C14": "exhaustive enumeration of accepted frames; decode/encode/decode fixpoint on the real code",
 "C15": "exhaustive enumeration of call histories and buffer states on the real code, compared with the history-free result",
 "C16": "complete enumeration of the code tables in every position, both directions, against the standard's tables",
 "C17": "exhaustive enumeration of constructor arguments over their bounded domains against the model value",
 "C18": "exhaustive enumeration of bounded inputs on the real decoder with an allocation monitor as invariant",
 "C19": "exhaustive enumeration of CONNECT flags, fields and buffer positions, both directions, against the reference model",
 "C20": "exhaustive enumeration of UTF-8 decoder paths in every text field and of bytes in every binary field against the reference model",
 "C21": "exhaustive enumeration of PUBLISH headers, identifiers and payload shapes, both directions, against the reference model",
 "C22": "exhaustive enumeration of acknowledgement forms, codes and property sections, both directions, against the reference model",
 "C24": "exhaustive enumeration of packets, frames and parts of packets through every public reader and writer, compared with each other and the reference model",
 "C25": "exhaustive enumeration of pairs of packets, built and decoded, against equality of the model values",
 "C26": "exhaustive enumeration of single defects (every undefined value in every coded field); the error compared with the model's defect",
 "C27": "controlled scheduling of two threads on the real code at machine-instruction granularity (single-step traps), all schedules with a complete operation after every instruction, with one preemption at every instruction, and in alternation; first use explored in fresh processes",
 "C28": "exhaustive enumeration of growing input families and buffer fillings on the real code with an instruction-count monitor (single-step traps); the growth of work compared between sizes",
 "C29": "exhaustive enumeration of bounded inputs and of packet histories on the real code with an allocation monitor as invariant (live memory after every call and over long connections)",
 "C30": "exhaustive enumeration of a bounded packet space on the real encoder with an allocation monitor as invariant",
 "C33": "exhaustive enumeration of packet values in groups and of frames, printed by the real code; all pairs of a group compared by value and by text",
 "C32": "exhaustive enumeration of packet values, each stored in every way in the ways' alphabet, on the real code; behaviour compared with that of plain storage",
 "C31": "exhaustive enumeration of inputs, buffer constructions and frame histories on the real code, the environment overwriting and reusing buffers and freed memory after every call",
 "C23": "exhaustive enumeration of list shapes (lengths, orders, repetitions) in every list of every packet, both directions",
}
NOTE = ("Every case of the bounded spaces listed in the evidence (coverage.spaces) is executed on the real code in /repo, in all four "
        "feature configurations, and compared with a reference model of MQTT 5 written from the standard; nothing is sampled. Holds "
        "only within those bounds (alphabets, lengths, depths). Trusts the reference model, the binding and rustc.")
EXTRA = {
 "C04": " A hang is a call that takes longer than 90 s.",
 "C15": " Runs in one thread so that process-wide state would see exactly the explored history.",
 "C27": " Sequentially consistent interleavings of two threads; no scheduling points inside the memory allocator; weak memory orders are not explored.",
 "C28": " Proportionality is judged on the listed sizes: work per byte at the large end at most 1.7 times that at the small end plus 5 instructions; instructions inside the memory allocator are not counted.",
 "C29": " Left-behind memory is judged after the second to fourth identical run, so that tables made once and bounded caches are allowed; growth over a connection by at most 64 blocks and 4096 bytes.",
 "C30": " The bound is 16 bytes per byte of content plus 4096 (plus the buffer's own enlargement).",
 "C31": " Use of memory after it was given back is seen through its changed content.",
 "C18": " The bound is 64 bytes per byte present plus 4096.",
}
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd=f"./check.py {p} --tier quick", thorough_cmd=f"./check.py {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json", technique=T[p], level="model_checking", level_note=NOTE + EXTRA.get(p, "")))
m = dict(version=1, setup_cmd="./check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks: everything is observed through the public API. See DESIGN.md; recorded defects in known_findings.txt.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
