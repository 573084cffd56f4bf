TECHNIQUE = "TLA+ specification of the fixed-point encoding on exact words; TLC validates recorded encodings, decodings and constants of the real code against it"
NOTE = ("encodeToRing, decodeFromRing, hal::constant, iota and dump_public on all element types, three ring sizes, 1 to 60 fractional bits, strided, reversed and empty views; values at and around the limits of the "
        "range, halves of a unit, denormals, infinities, NaN and close neighbours (monotonicity).")
DRIVERS = {"io": "all"}


def run(ctx):
    exe = ctx.build("io")
    ts = ctx.drives(exe, [(ctx.pick(1, 12), "encode")], timeout=600)
    ctx.validate("EncodeTrace", ts, {"LB": 8})
