"""Rules judged on the current source alone (no reference), per property."""


class Result:
    def __init__(self):
        self.sites = 0
        self.ok = 0
        self.violations = []
        self.unjudged = []


class Rule:
    def __init__(self, name, props, text, fn):
        self.name, self.props, self.text, self.fn = name, props, text, fn

    def run(self, prog):
        r = Result()
        self.fn(prog, r)
        return r


RULES = []


def rule(name, props, text):
    def deco(fn):
        RULES.append(Rule(name, props.split(), text, fn))
        return fn
    return deco


def for_property(prop):
    return [r for r in RULES if prop in r.props]
