"""C12 the Edwards group law."""
from hed import *


def tasks(tier):
    return ed_tasks('ed')
