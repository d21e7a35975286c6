#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": "bounded exhaustive exploration of writer-call histories on the real code, contents compared with what was written",
 "C02": "bounded exhaustive exploration of writer-call histories and metadata values on the real code",
 "C03": "bounded exhaustive exploration of archive layouts from an independent encoder, all reader front ends on each",
 "C04": "stateless model checking of the real readers under a controlled source: all answer sequences up to a deviation bound",
 "C05": "stateless model checking of the real writer under a controlled sink: all answer sequences up to a deviation bound",
 "C06": "exhaustive fault injection: every failure and truncation point of every read of the explored archives",
 "C07": "exhaustive fault injection: every failing or abandoned sink operation of the explored writer histories",
 "C08": "bounded exhaustive exploration of corruptions and read sequences on the real checked reads",
 "C09": "bounded exhaustive exploration of inputs: all mutations of seed archives and all short strings over a grammar",
 "C10": "bounded exhaustive exploration of comment lengths, positions and look-alikes on the real end-record search",
 "C11": "bounded exhaustive exploration of size, offset and count histories around the limits on a sparse sink",
 "C12": "bounded exhaustive exploration of saturation patterns of classic fields with ZIP64 structures",
 "C13": "exploration of all consumption histories of the streaming reader up to a depth",
 "C14": "exploration of all open/read/drop histories of the seekable reader up to a depth",
 "C15": "exploration of all interleavings of concurrent entry readers' steps up to a bound",
 "C16": "exhaustive enumeration of all dates and times and of builder-call sequences",
 "C17": "bounded exhaustive exploration of stored bytes, flags and Unicode fields against an independent decoder",
 "C18": "exploration of all copy-step sequences over generations up to a depth from an enumerated set of sources",
 "C19": "bounded exhaustive exploration of writer-call histories, each archive parsed by a strict independent parser",
 "C20": "bounded exhaustive exploration of lengths around the limits and of histories with refused entries",
 "C21": "exhaustive enumeration of method and flag values and of disk/count combinations on all readers",
 "C22": "exploration of all sequences of builder calls up to a depth, all permission values, all short names",
 "C23": "exploration of all histories of copying, rebuilding and reusing a parsed description up to a depth",
 "C24": "stateless model checking of the real readers: all abandonment points and source failures with retries up to a deviation bound",
 "C25": "exhaustive enumeration of build configurations, each driven over all method values and a set of archives",
 "C26": "bounded exhaustive exploration of reading and writing ways, with monitored memory and input",
    "C27": "exhaustive enumeration of crash points (every prefix) of all call histories up to a depth; controlled-scheduler exploration of flushes",
    "C28": "bounded exhaustive exploration of altered bytes, signatures, offsets and counts of a set of archives on all real readers",
}
N = "Decided by exhaustive enumeration of the stated finite spaces on the real code (linked from /repo's tree, no model), evidence lists spaces and counts. Outside the bounds nothing is claimed. Trusted: the independent encoder/parser in mc/harness/refzip.rs, the third-party codecs, the controlled environment in mc/harness/dev.rs."
checks = []
for k, t in T.items():
    lvl = "fault_enumeration" if k in ("C06", "C07") else "model_checking"
    checks.append({
        "property": k,
        "quick_cmd": f"VERIF_TIER=quick ./check.sh {k}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
        "evidence_file": f"evidence/{k}.json",
        "technique": t, "level": lvl, "level_note": N,
    })
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
  "notes": "No hooks: every check drives the public API of the crate in /repo as it is. See DESIGN.md."},
  open("/verif/MANIFEST.json", "w"), indent=1)
