"""Stand-in for pgmpy 0.1.x: the BayesianModel / estimators surface causalnex uses, from its documented behaviour."""
from _gap import module_getattr

__version__ = "0.1.12"
__getattr__ = module_getattr("pgmpy")
