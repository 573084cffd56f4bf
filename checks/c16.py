TECHNIQUE = "TLA+ specification of objects, kernels, states and forks as a state machine; TLC validates random call histories of the real objects and contexts"
NOTE = "ObjectTrace: the tables of all objects of a history are the specification's state; every answer (found kernel, thrown error, state value, fork identity) must be the one they determine."
DRIVERS = {"object": "mpc"}


def run(ctx):
    exe = ctx.build("object", group="mpc")
    ctx.validate("ObjectTrace", ctx.drive(exe, ctx.pick(400, 8000)))
