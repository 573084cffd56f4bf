TECHNIQUE = "TLA+ stack machine of conditionals, switches and loops; TLC validates the recorded execution of random nested programs on the real code against it"
NOTE = ("IfElse, Case and While on public and secret predicates (arithmetic and boolean shares), nested three deep, with secret and public data, out-of-range switch indices, zero rounds and secret loop "
        "conditions, under REF2K, SEMI2K, ABY3, SECURENN and SWIFT; which branches ran, in what order, on what values, and every result.")
DRIVERS = {"cflow": "all"}
PS = ["REF2K2", "SEMI2K2", "SEMI2K3", "ABY33", "SECURENN3", "SWIFT3"]


def run(ctx):
    exe = ctx.build("cflow")
    n = ctx.pick(4, 60)
    ts = ctx.drives(exe, [(n, p) for p in PS], timeout=800)
    ctx.validate("ControlTrace", ts)
