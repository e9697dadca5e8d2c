import runloop
def main(c):
    runloop.main(c, "steps", "step".split(","))
