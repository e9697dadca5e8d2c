from gridrun import run_grid as main
