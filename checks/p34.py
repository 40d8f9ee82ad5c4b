import traincheck
def run(c): traincheck.run(c, 2500, 9000)
