from check_c10 import optimizer
def main(c):
    optimizer(c, "gn", c.q("GenScript_gnq.cfg", "GenScript_gnt.cfg"), 1, ["gn"])
