"""gap(msg): the stand-in cannot do what was asked; the case is inconclusive."""


def gap(msg):
    from vf.core import Gap
    raise Gap("stand-in library: " + msg)


def Gap(msg):
    from vf.core import Gap as G
    return G("stand-in library: " + msg)


def forbid_missing(libname):
    """A __getattr__ for stand-in classes: unknown public attributes are gaps."""
    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        gap("%s: %s.%s is not implemented" % (libname, type(self).__name__, name))
    return __getattr__


def module_getattr(libname):
    def __getattr__(name):
        if name.startswith("_"):
            raise AttributeError(name)
        gap("%s.%s is not implemented" % (libname, name))
    return __getattr__
