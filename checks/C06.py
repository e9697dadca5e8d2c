from realrun import run_files as main
