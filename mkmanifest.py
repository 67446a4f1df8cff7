#!/usr/bin/env python3
# writes MANIFEST.json from the table below; run after adding a check
import json
from pathlib import Path
H = Path(__file__).parent
T = {
 "C01": ("hostile input generation and libFuzzer, under ASan/UBSan with allocation and work accounting", ""),
 "C02": ("generated files in all permitted encodings against an independent SML model (differential)", ""),
 "C03": ("generated corruption sets against bitwise checksums", ""),
 "C04": ("reference encoder differential over generated contents, buffer sizes and buffer states", ""),
 "C05": ("round trip property over generated files and repeated parse/write cycles", ""),
 "C06": ("structure-aware mutation and truncation against an independent decoder (differential)", ""),
 "C07": ("generated and enumerated number encodings against arithmetic reference", ""),
 "C08": ("inverse property over generated and enumerated lengths and length fields", ""),
 "C09": ("round trip and reference comparison over generated strings and pairs", ""),
 "C10": ("reference conversion over generated values", ""),
 "C11": ("generated streams, fragmentation schedules and injected read faults against a stream model", ""),
 "C12": ("reference framing over generated files and injected write faults, round trip through the reader", ""),
 "C13": ("generated multi-frame streams, schedules and faults against a stream model", ""),
 "C14": ("generated value lists and times against an independent statement of the workarounds", ""),
 "C15": ("stateful model-based call histories with allocation balance", ""),
 "C16": ("bitwise reference differential over enumerated and generated byte strings", ""),
 "C17": ("generated streams through the real program against an exact decimal reference", ""),
 "C18": ("repetition, interleaving, heap-content and threading metamorphic relations; ThreadSanitizer", ""),
 "C19": ("generated elements in arbitrary surroundings and malformed variants against an independent decoder", ""),
 "C20": ("generated create/free histories in both build configurations, statistical and format invariants", ""),
 "C22": ("generated inputs to three differently compiled copies of the library, differential comparison", ""),
 "C23": ("stateful model-based buffer histories; work and allocation accounting over generated files", ""),
 "C24": ("stateful call histories with faults; invariant over the observable state of the process", ""),
 "C21": ("generated files and byte strings, captured output against the model", ""),
}
NOTE = ("Randomised search with fixed seeds: no counterexample among the generated cases (counts and samples in the evidence file). "
        "Trusts clang's sanitizers, the independent model in harness/model.cpp and the statement of the property. ")
checks, na = [], []
props = [json.loads(l) for l in (H / "properties.jsonl").read_text().splitlines() if l.strip()]
for p in props:
    i = p["id"]
    if (H / "harness" / (i.lower() + ".cpp")).exists():
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --quick" % i,
                           thorough_cmd="python3 check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=T[i][0], level="exploration",
                           level_note=(NOTE + T[i][1]).strip()))
    else:
        na.append(dict(property=i, reason="The check is not built yet."))
m = dict(version=1, setup_cmd="python3 -c \"import shutil,sys; sys.exit(0 if shutil.which('clang') and shutil.which('clang++') else 1)\"",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed; every check compiles /repo/sml/src (and examples/sml_server.c) together with its harness.")
(H / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
