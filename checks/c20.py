TECHNIQUE = "TLA+ specification of typed arithmetic on exact words; TLC validates recorded typed operations of the real code under every protocol against it"
NOTE = ("Sums, products, dot products, comparisons, selections, clamps, bitwise operations, shifts, powers, quotients, roundings and conversions on all integer and fixed-point types, mixed types and visibilities, "
        "under REF2K, SEMI2K (2, 3 parties), ABY3, SECURENN and SWIFT on three ring sizes and 6 to 40 fractional bits; value, element type and visibility of every result.")
DRIVERS = {"typed": "all"}
PS = ["REF2K2", "SEMI2K2", "SEMI2K3", "ABY33", "SECURENN3", "SWIFT3"]


def run(ctx):
    exe = ctx.build("typed")
    n = ctx.pick(3, 40)
    ts = ctx.drives(exe, [(n, p) for p in PS], timeout=800)
    ctx.validate("TypedTrace", ts, {"LB": 8})
