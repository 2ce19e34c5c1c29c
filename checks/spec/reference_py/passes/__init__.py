"""A hugr-py passes module for hugr transformations."""
