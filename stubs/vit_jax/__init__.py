"""Minimal stand-in for google-research/vision_transformer's `vit_jax` package.

The real package is not installed in this sandbox.  Only the names which
google-research/vmoe imports are provided; the layers follow the published
definitions (same parameter names, shapes and semantics).
"""
