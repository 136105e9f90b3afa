"""Batteries of concrete cases: a seeded sample of the contract instances, with concrete sizes and values."""
import random


def battery(prop, mod, obs, tier, seed):
    rnd = random.Random(seed * 1009 + 17)
    n = getattr(mod, 'BATTERY', 140) * (1 if tier == 'quick' else 6)
    pool = [o for o in obs if getattr(mod, 'replayable', lambda o: True)(o)]
    by = {}
    for o in pool:
        by.setdefault(o.func, []).append(o)
    pick = []
    for f, l in by.items():
        k = max(8, n // len(by))
        if len(l) > k:
            l = rnd.sample(l, k)
        reps = max(1, min(getattr(mod, 'REPS', 3), k // max(1, len(l))))
        for j in range(reps):
            pick += [(o, j) for o in l]
    cs = [dict(func=o.func, config=o.config, seed=seed * 1000 + 37 * j + i, origin='audit:' + o.name)
          for i, (o, j) in enumerate(pick)]
    reps = getattr(mod, 'AUDIT_REPS', 0)          # models: every class at several orders, beyond the orders proved in this tier
    kinds = {}
    for o in pool if reps else []:
        kinds.setdefault(str((o.func, sorted((k, v) for k, v in o.config.items() if k != 'order'))), o)
    for i, o in enumerate(kinds.values()):
        for order in (2, 3, 4):
            for j in range(reps * (1 if tier == 'quick' else 6)):
                cs.append(dict(func=o.func, config=dict(o.config, order=order), seed=seed * 1000 + 500 + 100 * order + j + 7 * i,
                               origin='audit'))
    if hasattr(mod, 'battery'):
        for i, c in enumerate(mod.battery(tier, seed)):
            c.setdefault('seed', seed * 1000 + i)
            c.setdefault('origin', 'audit')
            cs.append(c)
    rnd.shuffle(cs)
    return cs
