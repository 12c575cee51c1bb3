"""Static analyses of DynaPhoPy.  Nothing in this package runs or imports /repo code."""
