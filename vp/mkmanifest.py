"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Contracts on the real C source, decided by CBMC per function group with the layer below replaced by its contract. "
        "Proved: obligations whose domain is complete (table layer, description, leaf functions, loop contracts). "
        "Bounded, labelled so and not counted as proved: page and cache layouts enumerated with symbolic contents, and executions of the same contracts on the compiled library. "
        "Assumed: operating system calls do what they report, C library as specified, single thread per handle.")
NA = {
 "N01": "Interleavings of threads: the verifier's contracts are sequential, and the page cache's wait and wake protocol needs rely-guarantee or exploration of schedules, another family. Lock balance on every sequential path is decided under C14.",
 "N02": "The library keeps no log and promises nothing between syncs, pages are overwritten in place: a crash inside sync can mix old and new pages, so no contract on its functions implies the statement; deciding it needs crash-point exploration, another family. Failed writes are decided under C12.",
 "N03": "The C++ layer is templates, exceptions, std::string and virtual dispatch; CBMC's C++ front end does not take it and no other deductive verifier for C++ is installed. A C rendering would be a model, not the code.",
}
PROPS = ["C%02d" % i for i in range(1, 17)]
m = dict(version=1, setup_cmd="python3 vp/mkprops.py && python3 vp/mkmanifest.py",
  hooks=dict(guard="none", enable="no hooks: the harnesses include /repo's source files as they are", source_commits=[]),
  checks=[dict(property=p, quick_cmd="python3 vp/check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 vp/check.py " + p,
     technique="contract-based deductive verification of the real C code (CBMC, callee contracts, loop contracts); bounded contract executions where out of reach",
     level="proof", level_note=NOTE) for p in PROPS],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="See DESIGN.md. vp/check.py <property> decides one property; known findings and repairs are in known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
