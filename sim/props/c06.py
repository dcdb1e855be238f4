"""C06: floating-point results ignore the caller's numeric context."""
from .. import fpwork

ID = 'C06'
generate = fpwork.generate
prepare = fpwork.prepare


def run(ctx, plan):
    fpwork.run(ctx, plan, ID)
