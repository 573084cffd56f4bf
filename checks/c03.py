TECHNIQUE = "TLA+ specification of what a party's view may depend on (ignorance certificates and distribution bounds), checked by TLC on recorded views of the real protocols; exhaustive TLA+ models of the masking designs"
NOTE = ("Views (input and output pieces, own random draws, incoming messages) of every single party in SEMI2K with 2 and 3 parties, ABY3 and SECURENN for 30 operations: certificates that no sum of bits of the view "
        "gives a secret bit, and counts of every bit of every part, and of sums, differences and exclusive-ors of pairs of parts, for pairs of secrets. Large views are sampled; other non-linear joint statistics are not covered. "
        "The dealer's own knowledge (party 0 of SEMI2K and SECURENN plays the trusted dealer) is left out.")
DRIVERS = {"secrecy": "all"}
PS = ["SEMI2K2", "SEMI2K3", "ABY33", "SECURENN3"]


def run(ctx):
    ctx.model("MCSecrecy", ctx.pick("MCSecrecy2.cfg", "MCSecrecy.cfg"))
    exe = ctx.build("secrecy")
    n = ctx.pick(1, 6)
    ts = ctx.drives(exe, [(n, p, k, "%d/3" % i) for p in PS for i in range(3) for k in ctx.pick([32], [32, 64, 128])], timeout=850)
    ctx.validate("SecrecyTrace", ts)
