import statscheck
def run(c): statscheck.run(c)
