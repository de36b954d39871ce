"""Shared reporting machinery."""
from collections import Counter
from .. import terms as t


class Finding:
    def __init__(self, rule, site, key, msg, entry=None):
        self.rule, self.site, self.key, self.msg, self.entry = \
            rule, site, key, msg, entry

    def ident(self):
        return f'{self.rule}|{self.key}'

    def as_dict(self):
        return dict(rule=self.rule, file=self.site[0], line=self.site[1],
                    function=self.site[2], key=self.key, message=self.msg,
                    entry=self.entry)


class Out:
    """result of one unit of analysis"""

    def __init__(self):
        self.findings = []
        self.counts = Counter()
        self.analysed = set()
        self.errors = []
        self.samples = []
        self.runs = 0
        self.data = None

    def ob(self, rule, n=1):
        self.counts[rule] += n

    def flag(self, rule, site, key, msg, entry=None):
        self.findings.append(Finding(rule, site, key, msg, entry))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def cut(x, n=160):
    s = t.show(x, 5) if isinstance(x, t.T) else str(x)
    return s if len(s) <= n else s[:n] + '...'
