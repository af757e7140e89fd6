"""What one unit of analysis hands back to the runner (plain data, crosses process borders)."""


class Unit:
    """one independent piece of work: a label and a function returning an Outcome"""

    def __init__(self, label, fn, weight=1):
        self.label, self.fn, self.weight = label, fn, weight


class Outcome:
    def __init__(self):
        self.obligations = 0
        self.proved = 0
        self.undecided = []      # text
        self.findings = []       # (key, text) violations
        self.known = []          # (key, text)
        self.functions = set()
        self.samples = []
        self.notes = []
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, proved, text=None):
        self.obligations += 1
        if proved:
            self.proved += 1
        elif text:
            self.undecided.append(text)

    def violation(self, key, text):
        if all(k != key for k, _ in self.findings):
            self.findings.append((key, text))

    def merge(self, o):
        self.obligations += o.obligations
        self.proved += o.proved
        self.undecided += o.undecided
        for k, t in o.findings:
            self.violation(k, t)
        for k, t in o.known:
            if all(x != k for x, _ in self.known):
                self.known.append((k, t))
        self.functions |= o.functions
        self.samples += o.samples
        self.notes += o.notes
        for k, v in o.counts.items():
            self.count(k, v)
