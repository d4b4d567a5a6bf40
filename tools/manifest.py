"""Writes MANIFEST.json from properties.jsonl and the modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing (Hypothesis): %s"
ORACLE = {
    "C01": "metamorphic - stack vs each slice alone under generated divisions of the work",
    "C02": "differential against an independent float64 ray tracer, plus linearity",
    "C03": "differential against dense float64 reference solvers",
    "C04": "metamorphic relations and a float64 filtered-backprojection reference",
    "C05": "metamorphic - same values in generated types and memory layouts",
    "C06": "generated invalid requests and stateful histories of failing and valid calls",
    "C07": "model-based - serial reference, with injected worker failures",
    "C08": "differential against float64 numpy formulas",
    "C09": "differential against per-slice scipy/numpy reference",
    "C10": "differential against brute-force median reference",
    "C11": "metamorphic relations, bounds and a float64 reference model",
    "C12": "invariants and metamorphic relations over generated masks",
    "C13": "round trips and differential against numpy index formulas",
    "C14": "differential against float64 reference formulas, metamorphic relations",
    "C15": "differential against a numpy reference, monotonicity",
    "C16": "differential against the Fourier formula, metamorphic relations",
    "C17": "known-answer generation of consistent data, shift equivariance",
    "C18": "known-answer generation, identities and differential references",
    "C19": "differential against a float64 reference projector and solver",
    "C20": "statistical and structural invariants over generated parameters",
    "C21": "structured fuzzing of the compiled code under AddressSanitizer/UBSan",
    "C22": "invariants over iteration histories",
    "C24": "round trips through files and types, differential against numpy",
    "C25": "end-to-end round trip of simulated experiments",
    "C23": "differential against stand-ins of the toolboxes",
}
NOTE = ("Generated-input search with a fixed seed against an explicit oracle: shows the property on "
        "every explored case, not for all inputs. Trusts numpy/scipy, the reference models in "
        "vt/, and the compilers. Bounds and oracle are described in DESIGN.md.")


def main():
    checks, na = [], []
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)["id"]
        if os.path.exists(os.path.join(V, "vt", "props", p.lower() + ".py")):
            checks.append({"property": p, "quick_cmd": "./check %s quick" % p,
                           "thorough_cmd": "./check %s thorough" % p,
                           "technique": TECH % ORACLE[p], "level": "exploration",
                           "level_note": NOTE})
        else:
            na.append({"property": p, "reason": "its check is not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
