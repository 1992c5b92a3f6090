"""Runtime-monitoring toolkit for the Newtonian Eot-Wash Toolkit checks."""
