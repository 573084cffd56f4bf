TECHNIQUE = "TLA+ state machine of a dealer (replay descriptors, fresh randomness, defining relations); TLC validates recorded request histories of both dealers, and products with cached operands, against it"
NOTE = ("Random histories of every kind of request (ring and prime field, three widths, two to four parties, first use, replay and transposed replay of operands, spawned dealers) against the first-party dealer and "
        "the remote dealer's real service, with replies cut into arbitrary pieces; requests just above the 32 MB block, read at positions around the block boundaries; histories of products, squares and matrix "
        "products of views of three tensors with caching switched on and off, compared with the exact result.")
DRIVERS = {"beaver": "mpc"}


def run(ctx):
    exe = ctx.build("beaver")
    # every kind of request once (quick) or more often with more than one block
    big = [(0, ctx.pick(2, 6), 2 * i) for i in range(5)]
    ts = ctx.drives(exe, [(ctx.pick(12, 200),)] + big, timeout=850)
    ctx.validate("BeaverTrace", ts, {"LB": 8})
