from gridrun import run_proto as main
