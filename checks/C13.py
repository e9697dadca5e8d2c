from steprun import run_steps as main
