"""symx: forking symbolic execution of the real oups code over real pandas/numpy object arrays."""
