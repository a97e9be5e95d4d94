"""Running slides on the Cairo backend with the recording Cairo stand-in."""
from elsie import SlideDeck
from elsie.render.backends.cairo.backend import CairoBackend
from envs import cairofake

K = 0.75  # PDF points per pixel


def cairo_deck(S, width=1000, height=700, **kw):
    d = S.scratch()
    return SlideDeck(width=width, height=height, backend=CairoBackend(cache_dir=d), cache_dir=d, name_policy="ignore", **kw)


def cairo_ops(deck, **kw):
    """Recorded drawing operations of every page."""
    units = deck.render(output=None, return_units=True, prune_cache=False, save_cache=False, **kw)
    return [u.ctx.surface.ops for u in units]


def to_page(p, k=K):
    """Device point in pixels."""
    return (p[0] / k, p[1] / k)


def subpaths(op):
    """Subpaths of a drawing operation that have at least one segment."""
    return [s for s in op.path if [seg for seg in s if seg[0] != "M"]]
