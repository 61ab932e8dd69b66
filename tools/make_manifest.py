"""Writes /verif/MANIFEST.json from the property modules present in pbt/props."""
import json, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "property-based testing: differential against a float64 reference with error balls",
    "C02": "property-based testing: polynomial reproduction, partition of unity, continuity relations",
    "C03": "property-based testing: differential against a float64 product-neuron reference",
    "C04": "property-based testing: differential against the series, period relation",
    "C05": "property-based testing: differential against a tensor-product reference, link perturbation",
    "C06": "property-based testing: differential against a direct-loop convolution reference",
    "C07": "property-based testing: differential against a scatter-loop reference",
    "C08": "property-based testing: metamorphic fold relation and reference",
    "C09": "property-based testing: weight perturbation and gradient-support relations",
    "C10": "property-based testing: analytic derivative reference with error balls",
    "C11": "property-based testing: round trip through p-refinement histories against the source function",
    "C12": "property-based testing: stateful h/p/hp-refinement histories against the source function",
    "C13": "property-based testing: invariants of initialised weights and outputs",
    "C14": "property-based testing: stateful smoothing histories against a closed-form model",
    "C15": "property-based testing: differential against float64 formulas, invariants",
    "C16": "property-based testing: metamorphic batch/layout relations and stateful call histories",
    "C17": "property-based testing: save/load/copy/train round trips",
    "C18": "property-based testing: differential against an error-ball model of the whole network",
    "C19": "property-based testing: differential against an error-ball model of the whole network",
    "C20": "property-based testing: algebraic relations and float64 loss model",
    "C21": "property-based testing: model-based histories against the recurrence",
    "C22": "property-based testing: differential against geometric definitions",
    "C23": "property-based testing: float64 attention model, masking and batch non-interference",
    "C24": "property-based testing: generated configurations and batches against models",
    "C25": "property-based testing: generated valid and invalid constructions",
    "C26": "property-based testing: round trips and interval containment",
}
NOTE = (
    "Searches generated cases only (no exhaustiveness); quick and thorough differ in the number "
    "of cases. Trusts torch/numpy kernels, the float64 reference in pbt/ and that single "
    "precision deviates by at most 16 times the first-order round-off bound."
)
props = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines()]
have = [p for p in props if (root / "pbt/props" / (p.lower() + ".py")).exists()]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo's sources unmodified", "source_commits": []},
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH[p],
            "level": "exploration",
            "level_note": NOTE,
        }
        for p in have
    ],
    "not_applicable": [
        {"property": p, "reason": "check not built yet"} for p in props if p not in have
    ],
    "notes": "See DESIGN.md. Replay a violation with ./replay.sh <file>.",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(have), "claimed")
