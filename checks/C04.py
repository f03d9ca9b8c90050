"""C04: recommendable-item restrictions."""
import copy

import irsload
from checks.C01 import crowd
from evalcases import check_cases, gen_case
from vlib import run


def broken(rng, c):
    c = copy.deepcopy(c)
    k = rng.choice(["dup", "range", "neg", "fewer", "more", "none"])
    ls = c["rec"]
    j = rng.randrange(len(ls))
    if k == "dup" and ls[j]:
        ls[j].insert(rng.randint(0, len(ls[j])), rng.choice(ls[j]))
    elif k == "range":
        ls[j].insert(rng.randint(0, len(ls[j])), c["ni"] + rng.choice([0, 0, 1, 5]))
    elif k == "neg":
        ls[j].insert(rng.randint(0, len(ls[j])), -rng.choice([1, 3]))
    elif c["reck"] == "user" and k == "fewer":
        ls.pop(j)
    elif c["reck"] == "user" and k == "more":
        ls.insert(j, [0])
    return c


def body(ck):
    irsload.load()
    rng = ck.rng
    r = ck.tlc("EvaluatorMC", env={"UNIVERSE": "one"})
    prints = [p for p in r.prints if p["c"]["reck"] != "all"]
    cases, exp = [], {}
    for n, p in enumerate(prints):
        c = dict(p["c"], id=f"u{n}")
        cases.append(c)
        exp[c["id"]] = dict(ok=p["ok"], res=p["res"])
    ck.count("enumerated_restrictions", len(cases))
    check_cases(ck, cases, "restriction", expected=exp)
    ck.log("universe done")
    n = ck.pick(700, 7000)
    cases = [gen_case(rng, f"r{q}", path=rng.choice(["matrix", "model", "cold", "coldmat"]),
                      reck=rng.choice(["global", "user", "user"])) for q in range(n)]
    ck.count("random_restrictions", n)
    check_cases(ck, cases, "restriction", reps=3)
    big = [gen_case(rng, f"b{q}", path=rng.choice(["matrix", "model"]), reck=rng.choice(["global", "user"]),
                    nu=rng.choice([12, 40]), ni=rng.choice([15, 50])) for q in range(ck.pick(30, 200))]
    check_cases(ck, big, "restriction", reps=2)
    wide = [gen_case(rng, f"w{q}", path=rng.choice(["matrix", "model", "cold"]), reck="user", nu=rng.choice([130, 270]),
                     ni=rng.choice([40, 90])) for q in range(ck.pick(6, 40))]
    for c in wide[::2]:     # every user may be recommended only a few of many items
        c["rec"] = [sorted(rng.sample(range(c["ni"]), rng.choice([0, 1, 1, 2]))) for _ in range(c["nu"])]
    ck.count("many_users", len(wide))
    check_cases(ck, wide, "restriction", reps=2)
    crowd(ck, "restriction", ck.pick(4, 16), reck="user")
    bad = [dict(broken(rng, gen_case(rng, f"x{q}", path=rng.choice(["matrix", "model"]), nu=rng.choice([2, 3, 5]),
                                     reck=rng.choice(["global", "user"]))), id=f"x{q}") for q in range(n // 2)]
    ck.count("ill_formed_restrictions", len(bad))
    check_cases(ck, bad, "ill-formed")
    ck.sample(bad[0])
    ck.assumptions = ["every evaluated user of an ill-formed case is at least the second (a single per-user list is a global one)"]


def main():
    run("C04", body)
