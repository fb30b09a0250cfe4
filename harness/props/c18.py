"""C18: sectors, vectors and counts of a rose."""
import roses

SPEC = "TraceRose"
ASSUMES = ["vectors on the edge of a sector are judged exactly where the arithmetic of the data is exact and the edge a binary fraction of the circle; elsewhere the rounding of the angle may decide"]


def cases(ctx):
    ctx.model("RoseMachine", thorough_cfg="RoseMachineT")
    # a unit and one neighbour whose changes are any vector: <<dx, dy>> for the first
    rng = ctx.sub("grid")
    m = ctx.n(3, 6)
    w = {"nb": [[1], [0]], "wt": None, "transform": None, "ids": None}
    for k in [4, 8] + ctx.n([6], [1, 2, 3, 5, 6, 7, 9, 10, 12, 16, 24]):
        for dx in range(-m, m + 1):
            for dy in range(-m, m + 1):
                if ctx.quick and rng.random() < 0.3:
                    continue
                a, b = rng.randint(0, 4), rng.randint(0, 4)
                s = rng.choice([1.0, 1.0, 0.25, 1000.0])
                yield roses.case(rng, "rose", [[a * s, (a + dx) * s], [b * s, (b + dy) * s]], True, w, k)
    rng = ctx.sub("random")
    for _ in range(ctx.n(350, 5000)):
        yield roses.random_case(rng, "rose")
    for n in (40, 80, 150, 300, 600):
        yield roses.random_case(rng, "rose", n)
    for style in ("realR", "real", "R"):
        yield roses.random_case(rng, "rose", 520, wstyle=style, ystyle="random")


def run(c):
    return roses.observed(roses.build(c))
