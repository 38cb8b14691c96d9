from . import stepping, systems, walking, misc, texts, pyapi
MODS = [stepping, systems, walking, misc, texts, pyapi]


def get(p):
    for m in MODS:
        if p in m.PROPS: return m.PROPS[p]
    raise SystemExit('no check for ' + p)
