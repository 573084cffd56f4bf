TECHNIQUE = "TLA+ specification of bit circuits, model-checked exhaustively on tiny words; TLC validates traces of the real circuits and utilities"
NOTE = ("MCCircuits: the parallel-prefix/carry/interleave algorithms equal their denotation for all words of 5-8 bits; the code is "
        "held to the denotation on 8..128-bit words (8-bit: exhaustive), in the clear and on shares of five protocols.")
DRIVERS = {"bits": "all"}


def run(ctx):
    ctx.model("MCCircuits", "MCCircuits5.cfg")
    ctx.model("MCCircuits")
    if ctx.thorough():
        ctx.model("MCCircuits", "MCCircuits8.cfg", timeout=3000)
    exe = ctx.build("bits", group="all")
    ctx.validate("BitsTrace", ctx.drive(exe, ctx.pick(1, 10)), {"LB": 8})
