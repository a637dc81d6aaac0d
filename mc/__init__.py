"""Bounded exhaustive exploration (model checking) machinery for theochem/BFit."""
