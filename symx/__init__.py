"""symx: bounded symbolic execution of numeric Python (numpy / xarray) code with z3.

The *real* functions imported from /repo are executed; their numeric inputs are
replaced by symbolic scalars (SymNum / SymBool) held in duck arrays (SymArray).
"""
