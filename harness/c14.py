from erlib import *


def body(ck):
    tr = ck.generate("er.qnt", "erSizes", ck.n(64, 800), 6)
    ck.replay(replay_sizes, tr, "er-size")
    tr = ck.generate("er.qnt", "erPoints", ck.n(40, 480), 14)
    ck.replay(replay_points, tr, "er-points")


main("C14", body)
