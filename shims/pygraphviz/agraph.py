from . import AGraph  # noqa
