TECHNIQUE = "TLA+ state machine of the secure ring (register file, sharings as an abstraction function); TLC validates traces of random programs run by all parties over the real protocols"
NOTE = ("RingMachine with CHECK=share: after every operation the pieces of all parties are a well-formed sharing of the register (replicated copies equal, macs correct, "
        "boolean width respected, private data at its owner only, types and shapes agreed), and stay one until the end of the program.")
DRIVERS = {"ring": "all"}
PROTOS = ("REF2K", "SEMI2K", "ABY3", "SECURENN", "SWIFT", "SPDZ2K")


def run(ctx):
    exe = ctx.build("ring")
    ctx.validate("RingMachine", ctx.drives(exe, [(ctx.pick(4, 32), p) for p in PROTOS], timeout=900 if ctx.thorough() else 170), {"LB": 8, "CHECK": '"share"'})
