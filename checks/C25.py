from realrun import run_sums as main
