from realrun import run_fields as main
