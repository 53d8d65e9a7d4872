"""Static value-flow analysis of aemcmc.  See /verif/DESIGN.md."""
