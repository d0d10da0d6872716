#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, re
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
T = "TLA+ specification checked with TLC; its behaviours replayed on the library, recorded sessions validated against it"
A = "Bounded in the models, sampled in the recorded sessions; assumes that the crypto primitives of Java and of OpenSSL/libsodium are right, and that clock and DNS enter only through the interposed functions."
NOTE = {
 "C01": "Every signing configuration with few unusual settings (MC_Sign) and thousands of generated ones are signed by the real code; each returned field is judged by the specification of the signer, then verified both by the library and by the specification of the verifier. Configurations with several signatures that oversign a signature-field name are excluded.",
 "C02": "MC_Protocol enumerates every short history of tampering and tolerated steps (HarmStays, Verdict) and each is replayed; generated signed messages are altered in many ways and every verdict compared with the specification.",
 "C03": "MC_Protocol's tolerated histories replayed, plus messages signed by the specification itself in generated layouts, carried through tolerated changes and verified by the real code.",
 "C04": "All bodies up to the bound (6 octets of 5 kinds; thorough 8) in both modes, unlimited and limited, alone and across read-block boundaries, plus generated bodies, streams and limits.",
 "C05": "All fields up to the bound over units chosen for their role, plus generated and random ones; idempotence and refolding are invariants of the model.",
 "C06": "All streams up to the bound, delivered in chunks of every sort, plus generated messages around block sizes.",
 "C07": "All tag lists up to the bound over the octets that matter, all 256 octets in each place, generated lists.",
 "C08": "Every signature field with at most 2 (thorough 3) deviations from a plain one, both kinds, and signed fields damaged at random. Invalid base64, non-numeric x= and ARC i=, and several @ in an identity are left open.",
 "C09": "Every record with at most 2 (thorough 3) deviations met by six sorts of signature, and damaged records. Non-canonical base64 in p= is left open.",
 "C10": "Every answer of the resolver to every sort of signature, repeated and changing, plus generated ones, through the custom and the system resolver.",
 "C13": "All short histories of a session over several signatures replayed twice; generated long histories with shared, reset and mixed objects, signers and errno.",
 "C15": "All small responses, generated and damaged ones up to 64K, under AddressSanitizer.",
 "C16": "All short octet strings and texts, all octets in each place, sizes around buffer limits.",
 "C17": "All short texts over the units that matter, generated words and texts.",
 "C18": "All short lists and reads over the octets that matter, all 256 octets, generated and long ones.",
 "C19": "All short texts and lists of short entries, generated lists, every octet in each place.",
 "C11": "Every configuration with few unusual settings (MC_Sign) and generated ones: the returned text is taken apart by the specification, tag by tag, including bh= and b= recomputed.",
 "C12": "Every message of up to four fields of four names met by every short header list and oversign list (MC_Select), signed by the library, and h= lists with repeated names made by the specification, verified by the library.",
 "C14": "Every short sequence of option calls (MC_Options) replayed with every getter compared; every short domain text; generated sequences.",
 "C20": "Schedules of two and three activities with few preemptions (MC_Sched) imposed on the library by passing a baton between threads at every call, stream read and resolver query; nested execution in callbacks, free parallel runs (also under ThreadSanitizer) and calls taken in turn in one thread; each activity must give what it gives alone, and MC_Merge shows the specification admits every interleaving of the recorded calls.",
 "C21": "Every message of up to four fields of names around the two signature names for every validator type (MC_Arc), every instance, and generated ones.",
 "C22": "The tool's main function runs in a child with generated files, options and resolver answers; its output is compared with the verdicts of the specification, and what it signs is judged by the specification.",
 "C23": "Every text of up to 3 octets that mean something somewhere to every entry point (MC_Total), damaged, long and deep texts, messages, records, keys and options, all under AddressSanitizer and a CPU limit: an outcome that is neither a result nor a declared error (Outcome) is refused.",
 "C24": "Every short body x limit x mode x change (MC_Limit), hashed in the model and replayed for signing and verification, plus generated ones around block sizes.",
 "C25": "Every clock x expiry x time x configuration of a small grid around the limits of the number types (MC_Expiry), with the clock moving between steps.",
 "C27": "Every call in every reachable state of key ownership (MC_Own, 2 keys; long random histories with 4) replayed with every RSA key followed from its making to its release; signing, verifying and decoding sessions of all sorts, mostly failing ones, repeated with the bytes and files left behind compared with the specification (Outcome).",
 "C26": "Every sequence of few key loads (valid, foreign, damaged forms) into the main and an additional signature, then signing (MC_Keys).",
}
src = (ROOT / "lib/checks.py").read_text()
props = [json.loads(l)["id"] for l in open(ROOT / "properties.jsonl")]
have = [p for p in props if re.search(rf"^def {p}\(", src, re.M)]
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": T, "level": "model_checking", "level_note": NOTE[p] + " " + A} for p in have],
     "not_applicable": [{"property": p, "reason": "check not written yet"} for p in props if p not in have]}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(have), "checks")
