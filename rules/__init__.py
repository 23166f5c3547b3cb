PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f

    return deco


from . import sched  # noqa: E402,F401
from . import lifecycle  # noqa: E402,F401
from . import resource  # noqa: E402,F401
from . import state  # noqa: E402,F401
from . import queue  # noqa: E402,F401
from . import store  # noqa: E402,F401
from . import monitor  # noqa: E402,F401
from . import derived  # noqa: E402,F401
from . import dist  # noqa: E402,F401
from . import effects  # noqa: E402,F401
from . import misc  # noqa: E402,F401
from . import generator  # noqa: E402,F401
from . import env  # noqa: E402,F401
from . import objmon  # noqa: E402,F401
from . import names  # noqa: E402,F401
from . import create  # noqa: E402,F401
from . import extras  # noqa: E402,F401
from . import times  # noqa: E402,F401
from . import helpers  # noqa: E402,F401
