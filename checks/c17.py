TECHNIQUE = "TLA+ specification of parallel loops and tiling (model checked over all schedules of small loops and all small shapes and block sizes); TLC validates traces of the real code under many schedules"
NOTE = ("ParTrace: visit counters of both loop overloads under sequential, reversed, shuffled and threaded schedules; the tiling helper on random shapes, "
        "layouts and block sizes; large secure operations cut into slices. Tiling and ParLoop are exhaustive models.")
DRIVERS = {"par": "all"}


def run(ctx):
    exe = ctx.build("par")
    ctx.models(["MCTiling", "ParLoop"])
    ctx.validate("ParTrace", ctx.drive(exe, ctx.pick(1, 8), timeout=250), {"LB": 8})
