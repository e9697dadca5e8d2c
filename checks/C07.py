from realrun import run_cont as main
