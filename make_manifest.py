"""writes MANIFEST.json from the property list and the contract modules that exist"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "C01": "save and load functions proved over a ghost file system for all sizes and values; JSON and npz text treated as injective containers; reals exact",
    "C02": "all functions proved for every number of surfaces and modes; reals exact",
    "C03": "in-memory and file functions proved for all sizes; eigenvalues through the contract of numpy (opaque, ascending)",
    "C04": "proved for all sizes and tuning values; expm of a skew-symmetric matrix is assumed orthonormal (trusted); given matrices are checked by the code",
    "C05": "proved for all texts, fingerprints and numbers; the number of files of one pruning is bounded (at most 4) and the histories are a fixed list; different texts are assumed to have different sha512 digests",
    "C06": "names are symbolic strings with integer and two-decimal holes; proved for all values",
    "C07": "proved for all sample counts, values and limits; the number of files of one merge is bounded (at most 3 in quick, 4 in thorough)",
    "C08": "proved for all sizes and values; exact real arithmetic",
    "C09": "proved for all sizes and values; the random generator is a ghost stream of draws; exact real arithmetic",
    "C10": "proved for all numbers of beads, surfaces, modes and samples; eigen decomposition through the contract of numpy.linalg.eigh; exact real arithmetic",
    "C11": "proved for all numbers of blocks and block sizes; exact real arithmetic",
    "C12": "all functions of the property are proved for every number of samples and all values; arithmetic is exact real arithmetic",
    "C13": "all functions of the property are proved for every number of samples >= 2; arithmetic is exact real arithmetic",
    "C14": "proved for all parameter values; the submission command is recorded by a stand-in",
    "C15": "paths are symbolic strings; the directories are a ghost set; proved for all roots and ids",
}
STUBS = set()
LEVEL = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")) and pid not in STUBS:
        checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python check.py {pid} --tier quick",
                       "thorough_cmd": f"/opt/venv/bin/python check.py {pid} --tier thorough",
                       "technique": "contract-based deductive verification: function contracts discharged by symbolic execution of the real source (all paths, loops by induction), polynomial normaliser and z3/cvc5; counterexamples replayed on the real code",
                       "level": LEVEL.get(pid, "proof"), "level_note": NOTES.get(pid, "")})
    else:
        na.append({"property": pid, "reason": "contracts not finished yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
