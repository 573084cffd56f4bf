TECHNIQUE = "TLA+ specification of words, ring and field kernels on memory; TLC validates traces of the real kernels"
NOTE = ("Spec: Words/RingSem/KernelTrace. Words.tla is model-checked exhaustively on tiny rings; every recorded kernel "
        "call on random shapes, strides, widths and boundary values is decided by TLC (not exhaustive over inputs).")
DRIVERS = {"kernels": "mpc"}


def run(ctx):
    ctx.model("MCWords")
    exe = ctx.build("kernels", group="mpc")
    t = ctx.drive(exe, ctx.pick(1, 12))
    ctx.validate("KernelTrace", t, {"LB": 8})
