from _gap import module_getattr

__getattr__ = module_getattr("sklearn.gaussian_process")
