import traincheck
def run(c): traincheck.run(c, 2000, 8000)
