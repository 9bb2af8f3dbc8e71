"""Result container shared by all rules."""
from __future__ import annotations
from dataclasses import dataclass, field


@dataclass
class Finding:
    key: str            # stable identity: rule + construct, never a line number
    loc: str            # file:line
    msg: str
    trace: list = field(default_factory=list)
    alias: str = ''     # what it is called should the construct its key names be written differently


@dataclass
class Result:
    prop: str
    rule: str
    obligations: int = 0
    discharged: int = 0
    findings: list = field(default_factory=list)
    samples: list = field(default_factory=list)
    stats: dict = field(default_factory=dict)
    assumptions: list = field(default_factory=list)
    floors: dict = field(default_factory=dict)     # stat name -> minimum confirmed by hand
    _seen: set = field(default_factory=set)

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, loc, msg, trace=(), alias=''):
        self.obligations += 1
        if key in self._seen:
            return
        self._seen.add(key)
        self.findings.append(Finding(key, loc, msg, list(trace), alias))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def adopt(self, listed: dict):
        """Findings listed under their alias (key~alias), unless the finding of that key is there itself."""
        for k in list(listed):
            key, _, alias = k.partition('~')
            if not alias:
                continue
            what = listed.pop(k)
            f = next((f for f in self.findings if f.key == key), None) or next((f for f in self.findings if f.alias == alias), None)
            if f is not None:
                listed[f.key] = what
