TECHNIQUE = "TLA+ definition of the array language; TLC validates recorded tensor operations of the real code under every protocol against it"
NOTE = ("Every tensor operator on random shapes (empty ones included), layouts, strides, paddings, dilations, dimension numbers and start indices (out of range included), on public, private and secret "
        "(arithmetic and boolean) operands in any mix, real and complex, under REF2K, SEMI2K (2, 3 parties), ABY3, SECURENN and SWIFT on three ring sizes; value, shape, element type and visibility of every result.")
DRIVERS = {"tensor": "all"}
PS = ["REF2K2", "SEMI2K2", "SEMI2K3", "ABY33", "SECURENN3", "SWIFT3"]


def run(ctx):
    exe = ctx.build("tensor")
    n = ctx.pick(4, 60)
    ts = ctx.drives(exe, [(n, p) for p in PS], timeout=800)
    ctx.validate("TensorTrace", ts)
