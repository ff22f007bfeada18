"""C10 (see check_fn)."""

from check_fn import run_check


def run(ctx):
    run_check(ctx)
