"""Writes /verif/MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLC trace validation of the real crate against the TLA+ machine"
GEN = "histories generated by TLC and replayed"
NOTE = {
    "C01": (TV + "; inductive observation of long messages", "Digests of all lengths over several blocks and of thousands of inputs are compared with FIPS 180-4 evaluated by TLC; messages of 2^29 and 2^32 bytes by recovering the chaining value from the digest. Contents are sampled."),
    "C02": ("TLC model of the buffered hasher; " + GEN + "; " + TV, "The buffering machine is explored completely at small constants; in the real hasher every (fill, piece length) transition is executed and validated, and all two-piece cuts of messages must have the one outcome specified."),
    "C03": (TV + "; " + GEN, "Every key length to 200 and beyond, every transition of the inner hash, long messages; contents are sampled."),
    "C04": ("TLC model of PBKDF2 blocks; " + TV + "; inductive observation of iterations", "Output lengths exhaustive in ranges, iteration counts directly or as one inductive step, block indices past 2^24; contents are sampled."),
    "C05": (TV + "; inductive observation of rounds", "Blocks, round counts and buffer contents sampled and structured; high round counts as single steps."),
    "C06": ("TLC model of ROMix; " + TV + "; witnessed computation for large N", "Small parameter sets are evaluated in full by TLC; large ones tied to a second computation whose ends and sampled steps are validated."),
    "C07": (TV + " over 64-bit parameter limbs", "Every bound from both sides, alone and combined, and random 64-bit values; large accepted sets only as far as memory allows."),
    "C08": (TV, "FIPS 197 evaluated by TLC with an S-box derived from its algebraic definition; keys and blocks sampled and structured."),
    "C09": (TV + "; inverse law as an observed class", "The law is executed on 20000 blocks for each of about 200 keys, and evaluated in TLC for some; the specification's own inverse is checked step by step."),
    "C10": ("TLC model of key holding; " + GEN + "; " + TV, "All key histories to a bound at model level; in the code every size to 70 in every state of the quotient."),
    "C11": ("TLC model of the CBC channel; " + GEN + "; " + TV, "The machine is explored completely at small constants; every (fill, piece) transition of the real Cipher is executed and validated."),
    "C12": ("TLC models of channel and Decipher; " + GEN + "; " + TV, "As C11, for the Decipher with held block, and round trips."),
    "C13": ("TLC model of Decipher flush; " + GEN + "; " + TV, "All machine states at small constants; all last bytes, all single-byte damage to padding, truncations to every length to 80."),
    "C14": ("TLC model of the channel with several messages; " + GEN + "; " + TV, "Message chains with every pair of short lengths, walks across boundaries, failed flushes in between."),
    "C15": ("TLC model of interleaved objects; " + TV + " of reordered and threaded runs", "Interleavings explored at model level; in the code random interleavings repeated in five orders and thread placements, every distinct record validated. Thread schedules are whatever the machine gives."),
    "C16": ("TLC model of the whole API; " + TV + " with panic, abort and hang as unexplained events", "Calls in any order and sizes, in debug (overflow checks) and release builds; the specification has no action for a panic."),
    "C17": ("TLC invariants on what the modelled objects hold; measured allocations validated by TLC against them", "In the models every object holds a block or two in every reachable state; in the code the bytes allocated are counted over up to a million calls per kind of object or function, and TLC compares what was kept, used at most and left over with what the specification allows."),
    "C18": ("TLC invariants on the steps the models take; running times of equal specified work validated by TLC", "The step machines take exactly the work the Cost module says; in the code the processor time of lots of calls that are equal work by that module is measured, and TLC refuses one that takes more than eight times as long as the other."),
}
checks = []
for k in sorted(NOTE):
    technique, note = NOTE[k]
    checks.append({
        "property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
        "technique": technique, "level": "model_checking",
        "level_note": note + " Trusts TLC, the harness's recording, and that inputs not executed behave like those executed.",
    })
doc = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
       "notes": "No hooks: everything is observed through the public API. Known findings: known_findings.txt."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
