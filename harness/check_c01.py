"""C01: see check_wf."""

from check_wf import run_check


def run(ctx):
    run_check(ctx)
