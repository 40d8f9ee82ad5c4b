import p07
def run(c):
    p07.run(c, "patch")
