from _gap import module_getattr

from .validation import check_array, check_consistent_length, check_X_y, column_or_1d

__getattr__ = module_getattr("sklearn.utils")
