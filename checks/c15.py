TECHNIQUE = "TLA+ specification of cost expressions (tree semantics and a parser of their text); TLC validates traces of random expressions"
NOTE = "CexprTrace: value of the tree modulo 2^64 under four bindings each; the printed text is parsed by the specification and must denote the same value."
DRIVERS = {"cexpr": "core"}


def run(ctx):
    exe = ctx.build("cexpr", group="core")
    ctx.validate("CexprTrace", ctx.drive(exe, ctx.pick(3000, 60000)), {"LB": 8})
