"""Shared run of the storage domain over all public operations."""
from sa.alias import AliasDomain
from sa.driver import Driver, entries
from sa.project import AnalysisBroken
from sa.values import V, FnV, BoundV, ExtM, ref

from .api import API


class Run:
    def __init__(self, project):
        self.domain = AliasDomain()
        self.drv = Driver(project, self.domain)
        self.entries = [e for e in entries(project) if e.label in API]
        self.results = {}

    def all(self):
        for e in self.entries:
            st, r, _ = self.drv.run(e)
            if e.name == "__init__":
                r = ref(("inst", "init", e.cls.name, None))
            self.results[e.label] = (e, st, r)
        return self

    def stats(self, rep):
        rep.coverage["operations"] = len(self.entries)
        rep.coverage["functions"] = len(self.drv.eng.stats["functions"])
        rep.coverage["calls_inlined"] = self.drv.eng.stats["calls"]
        rep.coverage["statements_interpreted"] = self.drv.eng.stats["stmts"]
        rep.coverage["external_calls"] = self.drv.eng.stats["extcalls"]
