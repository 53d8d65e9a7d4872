"""First-principles reference distributions.

This package is never executed: the analyser evaluates it to normal forms, in
the same way as the package under analysis, and compares the two.
"""
