import runloop
def main(c):
    runloop.main(c, "outputs", "open,output,close".split(","))
