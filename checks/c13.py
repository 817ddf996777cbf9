"""C13 the twisted Edwards group law."""
from hed import *


def tasks(tier):
    return ed_tasks('te')
