import runloop
def main(c):
    runloop.main(c, "procs", "pinit,perform".split(","))
