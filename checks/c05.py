TECHNIQUE = "TLA+ model of scripts over FIFO channels, and TLC validation of the message scripts of real runs: twin runs on different secrets, and the same run under other schedules"
NOTE = ("Each operation (ring, typed, sort, shuffle, reduce, branch) is run by all parties on three copies of a world: other secrets must give the same message scripts, "
        "another schedule (message delays, parallel loops) the same scripts and the same opened results; every message is received exactly once. "
        "Lockstep proves, for all small scripts and schedules, that such scripts cannot deadlock.")
DRIVERS = {"twin": "all"}


def run(ctx):
    exe = ctx.build("twin")
    ctx.models(["Lockstep"])
    ts = ctx.drives(exe, [(ctx.pick(3, 24), p) for p in ("REF2K", "SEMI2K", "ABY3", "SECURENN", "SWIFT")], timeout=900 if ctx.thorough() else 170)
    ctx.validate("TrafficTrace", ts)
