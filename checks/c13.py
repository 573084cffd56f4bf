TECHNIQUE = "TLA+ specification of sorted, shuffled and permuted rows, order statistics and routing networks; TLC validates runs of the real code against it, and a model of the merge network on all inputs"
NOTE = ("Sorts (default, radix, quick, network; one to three keys; ties; all visibilities; 1 to 3 dimensions; sizes 0 to 19), shuffles, permutations and their inverses, generated permutations and top-k "
        "in SEMI2K (2, 3 parties), ABY3, SECURENN and REF2K; local permutation helpers; Waksman routings of every permutation up to five packets and random larger ones, executed by the specification.")
DRIVERS = {"sort": "all"}


def run(ctx):
    exe = ctx.build("sort")
    ctx.models(["MergeNet"])
    n = ctx.pick(1, 16)
    ts = ctx.drives(exe, [(n, p) for p in ("LOCAL", "REF2K", "SEMI2K", "ABY3", "SECURENN")], timeout=900 if ctx.thorough() else 170)
    ctx.validate("SortTrace", ts)
