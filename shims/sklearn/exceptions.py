from _gap import module_getattr

__getattr__ = module_getattr("sklearn.exceptions")


class NotFittedError(ValueError, AttributeError):
    pass
