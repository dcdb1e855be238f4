"""C05: automatically named symbolic variables are always fresh."""
from .. import names
from . import c01

ID = 'C05'
KINDS = {'reused', 'captured', 'refused-auto'}


def prepare():
    c01.prepare()
    names.prepare()


def generate(r, tier):
    return names.generate(r, tier, c01, .7)


def run(ctx, plan):
    names.run(ctx, plan, KINDS)
