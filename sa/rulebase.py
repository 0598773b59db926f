RULES = {}


def rule(pid, how, **kw):
    def d(f):
        RULES[pid] = (f, dict(how=how, **kw))
        return f
    return d
