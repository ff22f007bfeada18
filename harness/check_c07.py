from check_rf import run_check


def run(ctx):
    run_check(ctx, "C07")
