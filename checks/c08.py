TECHNIQUE = "TLA+ specification of the written forms of types, chunked values and configurations; TLC validates traces of the real serialisers"
NOTE = ("SerialTrace: joining chunks is a partial function (defined exactly on partitions of the bytes that fit the description); random values of all "
        "share types and layouts are cut, perturbed and joined; types, configurations and options are written, read back and compared field by field.")
DRIVERS = {"serial": "all"}


def run(ctx):
    exe = ctx.build("serial")
    ctx.validate("SerialTrace", ctx.drive(exe, ctx.pick(3, 40)))
