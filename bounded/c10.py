"""C10 bounded stand-in: sizes requested from the children while counting, against the declared shifts."""
import c09

RULE = ("a case is one size computed by one rule form with every request to the children and to the "
        "class itself recorded; non-trivial: distinct (class, strategy, form, size) with at least one request")
BOUND = c09.BOUND


def units(tier, seed):
    return c09._units(tier, True)
