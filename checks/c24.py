TECHNIQUE = "TLA+ definition of grouped sums and means, of the LowMC cipher and of tags; TLC validates recorded aggregations, encryptions and tags of the real code against it"
NOTE = ("Grouped sums and means by one to three private or public key columns (ties, one group, all groups, wide keys) of public, private and secret payloads under SEMI2K (2, 3 parties) and ABY3; LowMC on 32, 64 and 128-bit blocks, plain "
        "and on shares, with the material of the cipher checked (parameters, invertible layers) and decryption; tags of one and several columns of any visibility: equal exactly for equal rows. Means are bounded by the error of the reciprocal.")
DRIVERS = {"tags": "all"}


def run(ctx):
    exe = ctx.build("tags")
    n = ctx.pick(10, 60)
    ts = ctx.drives(exe, [(n // 5, "PLAIN")] + [(n, p) for p in ("SEMI2K2", "SEMI2K3")] + [(4 * n, "ABY33")], timeout=800)
    ctx.validate("TagsTrace", ts, {"LB": 8})
