TECHNIQUE = "TLA+ specification of tensors as views of memory (state machine over buffers and address maps); TLC validates random histories of the real views, copies and writes"
NOTE = ("NdArr/ViewTrace: every reading of any view by any accessor, every dump of a buffer and every result of a value-level shape "
        "operation in three protocols must be what the specified memory holds. Random histories, not exhaustive.")
DRIVERS = {"views": "all"}


def run(ctx):
    exe = ctx.build("views")
    ctx.validate("ViewTrace", ctx.drive(exe, ctx.pick(1, 15)))
