import drv, world
R = drv.Rec()
for k, g in enumerate(R.gen()):
    prog = g["prog"]
    if not any(s["op"] in ("eval", "geval") for s in prog):
        continue
    for j in range(3 if R.thorough else 1):
        R.case("program", world.run_program, prog, world.REPS[(k * 7 + j * 3 + 1) % 9], world.CLASSES[(k // 9 + j) % 4], R.rng, k + j)
ALL = ["clone", "vary", "cross", "eval", "geval", "vary", "eval"]
for k in range(1500 if R.thorough else 200):
    prog = [dict(op=R.rng.choice(ALL), t=R.rng.choice([0, 1])) for _ in range(R.rng.randint(5, 10))]
    R.case("program", world.run_program, prog, world.REPS[k % 9], world.CLASSES[(k // 9) % 4], R.rng, R.rng.randint(0, 999))
for k in range(200 if R.thorough else 30):      # longer programs over more and longer individuals
    prog = [dict(op=R.rng.choice(ALL), t=R.rng.choice([0, 1, 1])) for _ in range(18)]
    R.case("program", world.run_program, prog, world.REPS[k % 9], world.CLASSES[(k // 9) % 4], R.rng, R.rng.randint(0, 999), False, 9)
R.close()
