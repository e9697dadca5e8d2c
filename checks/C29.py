from refrun import run_diag as main
