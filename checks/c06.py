TECHNIQUE = "TLA+ state machine of communicators (collective results, per-channel message queues, statistics, forks); TLC validates recorded random histories of the real communicator against it"
NOTE = ("Histories of all-reduce, reduce, rotate, broadcast, gather, send, receive and fork over 1 to 5 parties, on ring and prime-field tensors of every width and random strided views "
        "(also empty and longer than a parallel block) and on plain spans of 8 to 128 bits; results, shapes, untouched inputs, message order per channel and the reported latency and volume.")
DRIVERS = {"comm": "mpc"}


def run(ctx):
    exe = ctx.build("comm")
    n = ctx.pick(4, 40)
    ts = ctx.drives(exe, [(n,)], timeout=800)
    ctx.validate("CollectiveTrace", ts, {"LB": 8})
