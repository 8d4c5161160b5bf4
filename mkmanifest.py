"""Writes MANIFEST.json (python3 mkmanifest.py)."""
import json
from pathlib import Path

HERE = Path(__file__).parent
PROPS = [json.loads(l)["id"] for l in (HERE / "properties.jsonl").read_text().splitlines() if l.strip()]
NOTE = "TLA+ specification, model-checked by TLC on bounded instances, bound to the code by replaying TLC behaviours into it and by TLC trace validation of recorded histories; "
NOTES = {
    "C01": "real-valued interpolation formulas over bounded crystals/histories",
    "C02": "21 exact-symmetry crystals incl. non-orthogonal cells and random orientations",
    "C03": "valid, overlapping, duplicate, insufficient and malformed additions",
    "C04": "interleavings of masked copies, additions and mask changes",
    "C05": "real/dummy twins driven by the same history",
    "C06": "batch sizes 0..33, permutations, lattice shifts, repeated calls",
    "C07": "ART histories on all crystals",
    "C08": "OUTCAR/vasprun.xml/POSCAR/XDATCAR files and pymatgen structures",
    "C09": "POSCAR/XDATCAR scenarios: write, overwrite refusal, read back, byte-for-byte expectations",
    "C10": "positions, displacements and their inverses over random and corner coordinates",
    "C12": "constructor acceptance and refusal over exact crystals and supercells",
    "C13": "structure writers and readers of POSCAR and XDATCAR over generated structures",
    "C14": "readers over generated OUTCAR, vasprun.xml, POSCAR and XDATCAR contents",
    "C15": "every truncation, deletion and corruption class of generated files",
    "C16": "phonon spectra from stand-in and interpolation models",
    "C17": "phonon spectra intensities: orientations, corrections, scale and rotation laws",
    "C18": "MD spectra intensities: series, corrections, scale and rotation laws",
    "C19": "convolution over lines, grids, widths and functions",
    "C20": "interleavings of reading, overwriting, deriving, mutating over all object kinds",
    "C21": "lists of inputs from arrays, pymatgen, OUTCAR and vasprun.xml with outsiders at every place",
    "C22": "rescaling histories over generated datasets, float32 and float64",
    "C23": "histories of predictions, training steps and mode switches; batches up to 237",
    "C24": "recorded epochs with SGD (momentum, decay), Adam and four losses",
    "C25": "Python sequence semantics over generated trajectories",
    "C26": "a neighbour-graph model (links, components, automorphisms) whose consequences are checked on recorded predictions",
    "C27": "compositions of rotations, origin shifts, basis changes and renumberings of all crystals",
    "C28": "additions in any order, with any representing operation, until every direction of small crystals is known",
    "C11": "exact integer-grid space groups against the reported equivalences",
}
checks, na = [], []
for pid in PROPS:
    if (HERE / "harness" / "checks" / f"{pid.lower()}.py").exists():
        cmd = f"/opt/venv/bin/python /verif/run_check.py {pid} --tier "
        checks.append(
            {
                "property": pid,
                "quick_cmd": cmd + "quick",
                "thorough_cmd": cmd + "thorough",
                "technique": "TLA+ specification checked with TLC; TLC behaviours replayed into the code and recorded traces validated by TLC",
                "level": "model_checking",
                "level_note": NOTE + NOTES.get(pid, "bounded instances and seeded histories"),
            }
        )
    else:
        na.append({"property": pid, "reason": "check not built yet (work in progress)"})
(HERE / "MANIFEST.json").write_text(
    json.dumps(
        {
            "version": 1,
            "setup_cmd": "mkdir -p /verif/evidence",
            "checks": checks,
            "not_applicable": na,
            "hooks": {"guard": "none", "enable": "none", "source_commits": []},
        },
        indent=1,
    )
    + "\n"
)
print(len(checks), "checks;", len(na), "not claimed")
