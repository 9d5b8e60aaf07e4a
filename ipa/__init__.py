"""ipa: a static-analysis engine for ipyparallel's source tree.

Nothing in this package imports or executes code from /repo: sources are read
with ``ast`` only.
"""
