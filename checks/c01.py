TECHNIQUE = "TLA+ state machine of the secure ring (register file, sharings as an abstraction function); TLC validates traces of random programs run by all parties over the real protocols"
NOTE = ("RingMachine with CHECK=open: every opening of every register, at every party, is the exact result of the operation on the plain operands "
        "(a truncation within one unit), for REF2K, SEMI2K (2, 3 parties), ABY3, SECURENN, SWIFT and SPDZ2K, three ring widths, all mixes of visibilities, strided operands.")
DRIVERS = {"ring": "all"}
PROTOS = ("REF2K", "SEMI2K", "ABY3", "SECURENN", "SWIFT", "SPDZ2K")


def run(ctx):
    exe = ctx.build("ring")
    ctx.validate("RingMachine", ctx.drives(exe, [(ctx.pick(4, 32), p) for p in PROTOS], timeout=900 if ctx.thorough() else 170), {"LB": 8, "CHECK": '"open"'})
