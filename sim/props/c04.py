"""C04: live symbolic variables never share a name."""
from .. import names
from . import c01

ID = 'C04'
KINDS = {'duplicate', 'other-symbol', 'refused', 'name-kept'}


def prepare():
    c01.prepare()
    names.prepare()


def generate(r, tier):
    return names.generate(r, tier, c01, .25)


def run(ctx, plan):
    names.run(ctx, plan, KINDS)
