#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "property-based testing (rapid generators, shrinking) against an integer reference model of the format"
T = {
 "C01": "exhaustive generated-input check of all 65536 patterns against an integer reference model",
 "C02": "exhaustive generated-input check of all 65536 patterns against an integer reference model",
 "C03": MODEL + "; enumerated exponents and one-hot/run fractions",
 "C04": MODEL + "; enumerated exponents and one-hot/run significands",
 "C05": "property-based testing of drawn double pairs against exact integer addition",
 "C06": "exhaustive (16-bit) and property-based check that the fields reassemble to the encoding",
 "C07": MODEL + "; every half midpoint and neighbour enumerated",
 "C08": MODEL + "; boundary walk enumerated",
 "C09": MODEL + "; boundary walk enumerated",
 "C10": "property-based testing against an integer model of the nearest high and low part",
 "C11": "property-based testing: reported accuracy against the exact sign of (result - argument)",
 "C12": MODEL + "; every half midpoint as float64/float32 enumerated",
 "C13": MODEL + " (float32/float64 rounding done on integers)",
 "C14": "property-based round-trip testing, exhaustive for binary16",
 "C15": "property-based and enumerated checks of special values and NaN payloads against the model",
 "C16": "stateful property-based testing: call histories with snapshots of arguments and metamorphic re-runs",
 "C17": "stateful property-based testing of conversion chains with an exact invariant after each step",
 "C18": "metamorphic property-based testing: order and negation of pairs of neighbours",
 "C19": "property-based testing of IsExact against exact membership in the format",
 "C20": "property-based testing of IsExact against exact membership, exhaustive for 16 bits",
 "C21": "differential property-based testing against the Go standard library's strconv",
 "C22": "exhaustive and property-based testing against exact-rational shortest decimals",
 "C23": "differential property-based testing against the Go standard library's strconv, parse-back round-trip",
 "C24": "stateful property-based testing of append sequences against a string model",
 "C25": "structured random fuzzing of every public function; oracle: no panic, no hang",
 "C26": "differential property-based testing of GOARCH=386 and amd64 builds, and the model suites in the 386 build",
 "C27": "property-based testing of concurrent call histories under the race detector, results against serial runs",
}
note = {
 "C01": "Every pattern is checked; trusts the model (about 20 lines of integer code, itself cross-checked with the hardware's formats) and math/big's MantExp/Int.",
 "C21": "Sampled; trusts the standard library of the installed Go, whose shortest and fixed algorithms are not the ones under test.",
 "C23": "Sampled; trusts the standard library of the installed Go.",
 "C22": "Every half value is checked in 16 forms; other forms and precisions are sampled. Trusts exact-rational shortest digits and the standard library's fixed rendering of an exact value.",
 "C24": "Sampled histories; the module's own Format functions are the reference (C21-C23 check those).",
 "C25": "Sampled over the whole argument space; IsExact arguments keep |exponent| below about 4000 bits because it formats them in decimal.",
 "C26": "Sampled; amd64 runs natively and the 386 build runs on the same kernel. Other 32-bit platforms are not run.",
 "C27": "Sampled inputs and histories; the race detector reports conflicting unordered accesses of the executed paths, whatever the schedule was.",
 "C20": "All half values, sampled float32/float64 values; rejections of the known finding's shape (the shortest decimal is not exact) are counted, not reported.",
}
note["C02"] = note["C01"]
dflt = "Sampled, aimed at the boundaries of the format; trusts the reference model (integer arithmetic only, cross-checked against hardware float32/float64 and strconv) and exact take-apart of big.Float."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                 "technique": T[i], "level": "exploration", "level_note": note.get(i, dflt)} for i in ids],
     "not_applicable": [],
     "notes": "No hooks: the checks call the public functions (and internal/strconv, from a module below the same path). known_findings.jsonl lists the findings and the repairs."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
