"""Quantinuum system results and utilities."""
