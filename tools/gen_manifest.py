#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties the harness implements."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("fuzzing (mutated, adversarial and random octets) of every decoder with memory, stack and time limits",
         "No crash, hang or disproportionate memory use on the generated inputs; crashes are observed in separate processes."),
 "C02": ("model-based property testing, encode/decode round trip",
         "Every generated model message round-trips; equality is judged by the library and by the model."),
 "C03": ("differential property testing of compressed against plain form plus an independent walker of the octets",
         "The walker checks every pointer and every repeated name; names of real traffic shapes, limits at 0x3fff and 65535."),
 "C04": ("property testing, reported size against serialised length", "All serialisable types, generated and decoded values."),
 "C05": ("differential property testing against an independent octet-level walker of the wire format",
         "The model implements the wire format of each RFC independently of the library."),
 "C06": ("differential property testing with an independent encoder using random legal compression",
         "The encoder is independent of the library; every field is compared with the model."),
 "C07": ("mutation fuzzing with a fixpoint oracle (decode, encode, decode) and a reference decoder that reads input and output", "Holds for all accepted inputs among those generated."),
 "C08": ("stateful model-based testing of edit histories", "Random histories of up to 60 operations against a list model."),
 "C09": ("exhaustive and stateful property testing of the header", "All 65536 flag words are enumerated, setter histories are random."),
 "C10": ("stateful model-based testing of the input cursor", "Random histories against a slice-and-index model."),
 "C11": ("differential fuzzing against a reference decompressor", "The reference accepts, rejects or (for reserved label types) makes no statement."),
 "C12": ("model-based property testing of names as label sequences, order laws", "Generated names and triples of names."),
 "C13": ("exhaustive enumeration of 8 and 16 bit code points, in conversions and inside records", "Code point tables of the harness were taken from the RFCs and the library's documented set."),
 "C14": ("property testing of bitmaps against an independent encoder, mutated bitmaps", "All single types and pairs, random sets, malformed windows."),
 "C15": ("stateful and metamorphic property testing of the mDNS bits", "In builds with and without the feature."),
 "C16": ("differential testing between four builds of the library with different features", "The other builds answer over pipes; fuzzed and generated inputs."),
 "C17": ("property testing against a reference canonical form, permutations", "Generated record sets."),
 "C18": ("property testing of signatures: interoperability with independent implementations, tampering, arbitrary octets", "Trusts ring, rsa, dsa, crrl crates for the algorithms; fixed keys of each algorithm."),
 "C19": ("differential property testing against independent digests, key tags and encodings", "Digest functions from the sha1/sha2 crates."),
 "C20": ("metamorphic property testing of determinism across construction order, threads and processes", "Standard output and error are captured while serialising."),
 "C22": ("model-based property testing of constructors, setter histories, accessors and conversions", "Address text against an independent parser."),
 "C23": ("differential fuzzing of the record data decoders against a three-valued reference decoder", "All strings of up to two octets for every type, all cuts and octet changes of generated data, mutations, arbitrary octets."),
 "C21": ("property testing of framing: truncation, trailing octets, repartitioned counts, changed neighbours", "Every prefix of generated messages."),
}
impl = subprocess.run(["grep", "-oE", r'^\s+"C[0-9]{2}" =>', os.path.join(V, "harness/src/props/mod.rs")], stdout=subprocess.PIPE, text=True).stdout
impl = [i for i in T if '"%s" =>' % i in impl]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py build none both",
 "checks": [{
   "property": i,
   "quick_cmd": "python3 check.py run %s --tier quick" % i,
   "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
   "technique": "property-based testing and fuzzing: " + T[i][0],
   "level": "exploration",
   "level_note": T[i][1] + " Assurance is limited to the inputs generated; counts are in the evidence file.",
 } for i in impl],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in T if i not in impl],
 "notes": "No hooks in /repo: the harness uses the public interface only. 'python3 check.py replay FILE' runs a replay file again.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
