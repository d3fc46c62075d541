"""C14, C04: the two rule databases, over the contracts of the dict that forgets strategies (c14)."""
from contracts.c14 import ASSUMPTIONS, world as _world  # noqa: F401


def world(repo="/repo"):
    return _world(repo, opaque=True)
