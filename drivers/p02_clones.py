import drv, world
R = drv.Rec()
import itertools
for k, g in enumerate(R.gen()):
    prog = g["prog"]
    if not any(s["op"] == "clone" for s in prog):
        continue
    # quick: one representation per program; thorough: three
    for j in range(3 if R.thorough else 1):
        R.case("program", world.run_program, prog, world.REPS[(k * 5 + j * 3) % 9], world.CLASSES[(k // 9 + j) % 4], R.rng, k + j, True)
ALL = ["clone", "vary", "cross", "eval", "geval"]
for k in range(1500 if R.thorough else 200):
    prog = [dict(op=R.rng.choice(ALL), t=R.rng.choice([0, 1])) for _ in range(R.rng.randint(5, 9))]
    R.case("program", world.run_program, prog, world.REPS[k % 9], world.CLASSES[(k // 9) % 4], R.rng, R.rng.randint(0, 999), True)
for k in range(200 if R.thorough else 30):      # longer programs over more and longer individuals
    prog = [dict(op=R.rng.choice(ALL), t=R.rng.choice([0, 1, 1])) for _ in range(18)]
    R.case("program", world.run_program, prog, world.REPS[k % 9], world.CLASSES[(k // 9) % 4], R.rng, R.rng.randint(0, 999), True, 9)
R.close()
