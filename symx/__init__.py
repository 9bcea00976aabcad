"""symx: bounded symbolic execution of disco-dop's Python and Cython sources."""
