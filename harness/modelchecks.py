"""Checks of the polarizability-model properties (PModel specification)."""

from __future__ import annotations

from . import drive, modelmc

S = "harness.scenarios"

# pid: (profile, quick traces, thorough traces, spec instances, behaviours, twin)
PLAN = {
    "C01": ("prof_predict", 160, 2400, [("p-1", "interp"), ("zb", "art")]),
    "C02": ("prof_predict", 160, 2400, [("hcp", "interp"), ("p3", "art")]),
    "C03": ("prof_admission", 260, 4000, [("pmmm", "interp"), ("cscl", "art")]),
    "C04": ("prof_masks", 110, 1500, [("mono", "interp"), ("nacl", "art")]),
    "C05": ("prof_dummy", 110, 1500, [("rhom", "interp"), ("hcp", "art")]),
    "C06": ("prof_purity", 50, 700, [("p1", "interp"), ("diam", "art")]),
    "C07": ("prof_art", 110, 1500, [("hcp", "art"), ("sc2", "art")]),
    "C08": ("prof_files", 200, 3000, [("sc2", "interp"), ("zb", "art")]),
    "C11": ("prof_structure", 160, 2400, [("p31", "art"), ("skew", "art")]),
}

DEEP = [
    (name, kind)
    for kind in ("interp", "art")
    for name in ("sc2", "hcp", "zb", "p-1", "mono", "rhom", "pmmm", "p3", "skew", "cscl")
]


def run(ctx) -> None:
    prof, quick, thorough, instances = PLAN[ctx.pid]
    over = {"maxlen": 3, "ncand": 5}
    traces = modelmc.run(
        ctx,
        [(n, k, over) for n, k in instances],
        behaviours=12,
        dummy_twin=ctx.pid in ("C05", "C04"),
    )
    if ctx.thorough:
        traces += modelmc.run(
            ctx,
            [(n, k, {"maxlen": 4, "ncand": 5}) for n, k in DEEP],
            behaviours=25,
            dummy_twin=ctx.pid in ("C05", "C04"),
        )
    if ctx.pid != "C11":
        ctx.validate("PModelTrace", traces, "spec behaviours replayed into the classes")
    n = ctx.pick(quick, thorough)
    traces = drive.scenarios(ctx, S, prof, n)
    # many atoms and degrees of freedom
    traces += drive.scenarios(ctx, S, prof, ctx.pick(2 if ctx.pid == "C03" else 1, 6), start=500000, names=["sup24"])
    ctx.validate("PModelTrace", traces, f"seeded histories ({prof})")
