TECHNIQUE = "TLA+ specification of IEEE binary16 by exact integers; TLC validates traces of the real half type (conversions exhaustive)"
NOTE = ("HalfTrace: every result is the exact value rounded to nearest-even, decided by integer comparison with midpoints. All 65536 halves for "
        "conversion to float and classification, a quarter or all of them for rounding functions; sampled operands for arithmetic; transcendental "
        "functions within one ulp of libm.")
DRIVERS = {"half": "all"}


def run(ctx):
    exe = ctx.build("half", group="all")
    ctx.validate("HalfTrace", ctx.drive(exe, ctx.pick(1, 12)), {"LB": 8})
