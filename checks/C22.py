from refrun import run_records as main
