#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of implemented checks."""
import json, os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = "Explores generated inputs up to the bounds in DESIGN.md; silence means no counterexample in the explored cases, not a proof."
T = {
    "C01": "property-based testing and enumeration of all public calls under a panic-catching caller, mutated captured frames, both builds",
    "C02": "enumeration and property-based testing against an independent frame acceptance predicate",
    "C03": "property-based testing: metamorphic comparison of three CRC layouts and constructed-field oracle",
    "C04": "property-based testing with constructed headers (inverse oracle) and cut headers",
    "C05": "property-based testing against an independent record segmentation model, both builds",
    "C06": "enumeration and property-based testing with constructed DIF/DIFE chains",
    "C07": "enumeration and property-based testing against exact rational arithmetic",
    "C08": "enumeration of the value information tables and property-based testing of combinations",
    "C09": "enumeration and property-based testing of date encodings",
    "C10": "property-based testing of text records against an independent text model, both builds",
    "C11": "property-based testing with an independent AES encryptor (inverse oracle)",
    "C12": "property-based testing: every output of encrypted frames searched for record content",
    "C13": "property-based testing: outputs parsed back and compared with the decoded value",
    "C14": "property-based testing: tables unwrapped and compared cell by cell, widths measured",
    "C15": "property-based testing with a strict parser of the generated diagrams",
    "C16": "property-based testing: documents read with a strict XML parser and compared with an independent record model",
    "C17": "property-based testing: role of every byte from the reference model compared with the covering segment, both builds",
    "C18": "property-based testing against an independent hex grammar",
    "C19": "property-based testing: damaged record blocks with known damage position",
    "C20": "property-based testing of the built command line tool against in-process library calls",
    "C21": "property-based testing of the built Python module, driven over a pipe, against in-process library calls",
    "C22": "property-based testing of the natively built web binding against library calls; highlighter output parsed by a strict span parser",
    "C23": "property-based testing: legacy documents parsed by independent readers and compared with the low-level decode",
    "C24": "property-based testing: metamorphic permutation and context changes of records",
    "C25": "property-based testing: differential comparison of the low-level types with the canonical output, model-based testing of the key store",
    "C26": "enumeration of code tables and property-based testing of identification numbers",
    "C27": "property-based testing: two builds compared on the same record in both spellings and on frames without plain text",
    "C28": "metamorphic property-based testing of options and repetition, enumeration of manufacturer codes",
    "C29": "property-based testing: details compared with the bytes of their segments and the reference model, text dump parsed back, both builds",
    "C30": "differential property-based testing of separately built feature combinations over a pipe",
    "C31": "property-based testing of display texts against the reference model, enumeration of code texts, both builds",
    "C32": "enumeration of all control information codes with payload lengths and property-based testing of payloads against an independent reading table",
    "C33": "property-based testing: legacy diagrams read by a strict parser and compared with the low-level decode, legacy annotations compared with the annotation calls",
    "C34": "property-based testing: inputs with one constructed fault, error facts compared with that fault",
    "C35": "property-based testing: expected account built from the constructed frame and the reference model",
    "C36": "property-based testing: frames with one constructed fault, byte strings against an independent CRC and block reader",
    "C37": "property-based testing: round trip of generated values through JSON and YAML",
    "C38": "property-based testing: own ciphertext under every header kind, mode, key and buffer size against the derived outcome",
    "C40": "property-based testing: documents parsed back and compared field by field with a document assembled from the low-level types",
    "C39": "property-based testing: records and every shorter beginning of them against an independent record reader, enumeration of codes and limits",
    "C41": "property-based testing: metamorphic comparison of one frame in both byte orders and constructed-value oracle",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert all(t in ids for t in T), "check for an unlisted property"
m = {
    "version": 1,
    "setup_cmd": "bash run.sh --build",
    "checks": [
        {"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i}",
         "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE}
        for i in ids if i in T
    ],
    "not_applicable": [{"property": i, "reason": "its check is not written yet"} for i in ids if i not in T],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
