"""C05 Exporting a model to JSON and importing it loses nothing."""
import os
from vlib import core
from checks import c04


def run(ctx):
    c04.run(ctx, fmts=("json", "bin"), n=ctx.pick(320, 1200))
    # through the command line: export-model | import-model
    d = os.path.join(ctx.work, "cli")
    os.makedirs(d)
    c04.run(ctx, fmts=("cli", "cli"), clidir=(d, core.cli(hooks=False)), n=ctx.pick(24, 150))
