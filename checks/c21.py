TECHNIQUE = "TLA+ specification of the elementary functions on exact words (integer relations for quotients and roots, series and brackets for the rest) with one error bound per function and mode; TLC validates recorded evaluations of the real code against it"
NOTE = ("Reciprocal, division, square root, inverse square root, exp (three modes), exp2, log (three modes), log2, log1p, tanh, logistic (three modes), sin, cos, erf, atan2, acos and asin at log-uniform and boundary arguments of their whole "
        "domain, public, private, arithmetic and boolean shared, 16 to 40 fractional bits (even and odd), 64- and 128-bit rings, under REF2K, SEMI2K (2, 3 parties), SECURENN and ABY3. The bounds are those of the approximations as designed with "
        "about 1.3 to 3 times slack; arguments whose intermediate products leave the ring are out of domain.")
DRIVERS = {"approx": "all"}
CONF = [("REF2K2", 64, 18, 6), ("REF2K2", 64, 17, 5), ("REF2K2", 128, 30, 4), ("REF2K2", 128, 40, 4), ("REF2K2", 64, 16, 4), ("SEMI2K2", 64, 18, 4),
        ("SEMI2K3", 64, 18, 2), ("SECURENN3", 64, 19, 2), ("ABY33", 128, 27, 3), ("ABY33", 64, 18, 3), ("SEMI2K2", 128, 40, 3), ("SEMI2K2", 128, 26, 3)]


def run(ctx):
    ctx.model("MCReal", "MCReal.cfg")
    exe = ctx.build("approx")
    m = ctx.pick(2, 24)
    ts = ctx.drives(exe, [(n * m, p, k, f) for p, k, f, n in CONF], timeout=800)
    ctx.validate("ApproxTrace", ts, {"LB": 8})
