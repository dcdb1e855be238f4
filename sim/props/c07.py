"""C07: floating-point operations leave the caller's numeric context as found."""
from .. import fpwork

ID = 'C07'
generate = fpwork.generate
prepare = fpwork.prepare


def run(ctx, plan):
    fpwork.run(ctx, plan, ID)
