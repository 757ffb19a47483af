REG = {}


def prop(pid, rule, assumptions=()):
    def deco(fn):
        REG[pid] = {"fn": fn, "rule": rule, "assumptions": list(assumptions)}
        return fn
    return deco
