TECHNIQUE = "TLA+ model of shared random streams with forks (TLC), and TLC validation of histories of draws and of the generator's log under whole programs"
NOTE = ("Histories of draws and forks in 2 to 5 parties, and random programs (ring, typed, sort, shuffle, branch) in forked contexts of every protocol; the generator logs which blocks of which "
        "stream each party draws. Every event must keep the shared positions equal, use no block twice, and keep contexts on streams of their own.")
DRIVERS = {"prg": "all"}


def run(ctx):
    exe = ctx.build("prg")
    ctx.models(["Streams"])
    n = ctx.pick(2, 24)
    ts = ctx.drives(exe, [(n, p) for p in ("STREAMS", "SEMI2K", "ABY3", "SECURENN", "SWIFT")], timeout=900 if ctx.thorough() else 170)
    ctx.validate("StreamTrace", ts)
