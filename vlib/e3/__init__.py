"""Bounded stand-ins: concrete differential contract checks."""


def families():
    from . import misc, progs, rules

    fam = {}
    for m in (rules, progs, misc):
        for k, v in vars(m).items():
            if len(k) == 3 and k[0] == 'c' and k[1:].isdigit():
                fam['C' + k[1:]] = v
    return fam
