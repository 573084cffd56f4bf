TECHNIQUE = "TLA+ specification of client shares and of the co-located store as a state machine; TLC validates recorded histories of the real code against it"
NOTE = ("IoClient makeShares/combineShares/getShareSize for SEMI2K (2, 3 parties), ABY3, SECURENN, SWIFT and REF2K over all element types and complex pairs, visibilities, owners, strided views; per-bit statistics of the "
        "pieces each party gets of constant data (1024 elements, seven standard deviations); histories of hostSetVar, sync, hostGetVar, deviceSetVar, deviceGetVar and deviceHasVar at all parties, with name clashes.")
DRIVERS = {"io": "all"}


def run(ctx):
    exe = ctx.build("io")
    n = ctx.pick(1, 12)
    ts = ctx.drives(exe, [(n, "io")], timeout=800)
    ctx.validate("IoTrace", ts, {"LB": 8})
