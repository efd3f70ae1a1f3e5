"""Views of structures with tuple dimensions."""
from .. import tupviews
from ..gen import automid


def run(chk, tier):
    chk.explore(automid(list(tupviews.programs(tier == "thorough"))), per_tu=30)
