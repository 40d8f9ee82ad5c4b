import layercheck
# more elements than single precision can count
HUGE = ["Make amax 4 2 2 2 2 1 1 4100 4098 1 ; Large 3 ;", "Make max 2 3 2 1 1 16777230 2 1 ; Large 6 ;"]
MORE = ["Make amax 4 3 2 1 1 1 1 4099 4099 1 ; Large 4 ;", "Make max 2 2 3 1 1 4100 4101 1 ; Large 5 ;", "Make amax 4 2 1 1 1 1 1 16777223 1 1 ; Large 7 ;"]
def run(c):
    layercheck.run(c, "pool", ["asan"], 500, 5000, HUGE if c.quick else HUGE + MORE)
