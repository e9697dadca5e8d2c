from refrun import run_sampling as main
