"""Stand-in for scikit-learn."""
__version__ = "0.24.2"
