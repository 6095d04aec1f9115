"""Writes /verif/MANIFEST.json (run by hand when checks change)."""
import json, os

NOTES = {
    "P01": ("generated graphs against a direct cover validator", "no counterexample among the generated graphs (all 1252 atlas graphs can occur; up to 14 vertices, sparse ones larger)"),
    "P02": ("differential testing against an exhaustive minimum-cover search, metamorphic relabelling", "minimality up to 13 vertices; trusts the 40-line reference search and networkx's clique enumeration"),
    "P03": ("differential testing against brute force and networkx", "all subsets are enumerated up to 8 vertices"),
    "P04": ("generated graphs against a validator and brute-force independence number", "validity and number of latents on generated graphs"),
    "P05": ("round trip structure -> dependence graph -> structure", "recovery up to 150 measurements"),
    "P06": ("generated specifications against the documented form, coverage of all outcomes", "support statements are decided by 1e-9-level frequency bounds"),
    "P07": ("generated specifications against counting and the reference cover size", "minimality up to the reference search's size"),
    "P08": ("generated structures and generator states against documented ranges", "ranges on every draw, support by frequency"),
    "P09": ("statistical tests of samples against the specified moments, metamorphic relations", "alarms need 6.5 standard errors; smaller deviations go unnoticed"),
    "P10": ("optimality conditions evaluated with an independent gradient on generated datasets", "first-order conditions up to the stated tolerance"),
    "P11": ("differential testing against the decision rule, metamorphic units and orders", "pairs within rounding of the threshold aren't judged"),
    "P12": ("round trip model -> moments -> model", "detectable correlations; tolerance of numerical optimisation"),
    "P13": ("differential testing against the definition in extended precision, metamorphic relations", "agreement up to 1e-8"),
    "P14": ("differential testing of every pair against independently computed tests", "up to 50 features, i.e. 13 chunks of work for the process pool; the pool's schedule is the operating system's"),
    "P15": ("differential testing against the published formulas over all tie-breaking orders", "agreement up to 1e-9"),
    "P16": ("differential testing against pairwise counting, metric laws", "up to 7 latents and 12 measurements (some 40), 300 latents for overflow"),
    "P17": ("differential testing against optimal assignment", "up to 8 latents"),
    "P18": ("random process histories between two fits that must agree bit for bit, metamorphic units and splits", "up to 4 epochs on small datasets, on the CPU with one thread"),
    "P19": ("interventions on generated decoders' weights, gradient counting", "architectures up to 16 latents, 370 measurements, 6 hidden layers"),
    "P20": ("file-system comparison and reloading over generated paths and fit histories", "up to 3 fits"),
    "P21": ("recomputed objective, recorded passes and gradient signs on generated fits", "the determinant term may be a determinant or its logarithm"),
    "P22": ("recomputed objectives and sample statistics on generated fits", "optimality up to numerical tolerance and by batches"),
    "P23": ("bitwise comparison of arguments and repeated calls", "22 computations"),
    "P24": ("model-based stateful testing of random operation sequences", "up to 12 operations on up to 10 vertices (30 on 16)"),
    "P25": ("round trip through the exported file, inspection of drawn figures", "figures under the Agg backend"),
    "P27": ("model-based histories over several models, bitwise comparison of all others after each operation", "up to 18 operations on up to about 10 models; 16 computations whose results are overwritten"),
    "P28": ("recording the network's inputs during generated fits and matching them with the dataset", "up to 300 observations, 4 epochs; needs gradients on in training and off in validation"),
    "P29": ("round trip structure -> sample -> dependence graph -> structure", "up to 7 measurements, correlations of at least 0.45, strict levels"),
    "P30": ("metamorphic testing over dtypes, memory layouts and verbosity", "29 computations, 12 dtypes, 6 layouts; agreement up to 1e-6"),
    "P31": ("generated sets of computations in concurrent threads against running them alone", "up to 6 threads with 8 computations; the interpreter's schedule, switched up to every microsecond"),
    "P32": ("metamorphic testing over process-wide settings and new processes, snapshots of the process state", "24 computations, 28 kinds of process state, hash seeds, -O, encodings, directories; exceptions for floating-point errors aren't enabled"),
    "P33": ("fault injection: generated interruptions at traced lines and killed processes, against undisturbed runs", "24 computations, up to 3 interruptions at lines of medil, not within clean-up code"),
    "P34": ("random histories with copies, pickles and restarts against the same history without", "up to 10 calls, pickle protocols 2 to 5, torch.save, deep copies; graphs only deep-copied"),
    "P35": ("random histories of calls on buffers changed in place against fresh processes", "up to 7 calls of 23 computations and 6 kept models; datasets up to 30 observations"),
    "P36": ("random histories with rejected calls interleaved against the same history without, snapshots before and after", "up to 6 rejected calls of 14 kinds in up to 10 calls; names are strings, numbers or None"),
    "P26": ("random interleavings against isolated replays", "up to 16 calls on 4 streams"),
}

props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
manifest = {
    "version": 1,
    "setup_cmd": "chmod +x check && /opt/venv/bin/python -c 'import hypothesis, numpy, scipy, networkx, torch'",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "technique": "property-based testing: " + NOTES[p["id"]][0],
            "level": "exploration",
            "level_note": NOTES[p["id"]][1],
        }
        for p in props
        if p["id"] in NOTES
    ],
    "not_applicable": [],
    "notes": "Pure Python: the checks import medil from /repo's working tree (never from cached bytecode), nothing is built. No hooks.",
}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
