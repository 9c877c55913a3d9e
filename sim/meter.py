"""How much work and memory one call takes, deterministically.

Work is counted in interpreter events (function entries, jumps and branches,
from sys.monitoring), memory by tracemalloc.  Both are independent of the
machine; a call exceeding its allowance is aborted from the event callback.
"""
from __future__ import annotations

import sys
import tracemalloc

M = sys.monitoring
TOOL = 4
E = M.events
EVENTS = E.PY_START | E.JUMP | E.BRANCH | E.PY_RESUME


class OverBudget(BaseException):
    pass


class Meter:
    def __init__(self, max_steps: int = 10**9) -> None:
        self.steps = 0
        self.max_steps = max_steps
        self.peak = 0

    def _event(self, *a):
        self.steps += 1
        if self.steps > self.max_steps:
            self.max_steps = 10**12
            raise OverBudget()

    def __enter__(self):
        if M.get_tool(TOOL) is None:
            M.use_tool_id(TOOL, "sim-meter")
        for ev in (E.PY_START, E.JUMP, E.BRANCH, E.PY_RESUME):
            M.register_callback(TOOL, ev, self._event)
        if not tracemalloc.is_tracing():
            tracemalloc.start(1)
        tracemalloc.reset_peak()
        self.base = tracemalloc.get_traced_memory()[0]
        M.set_events(TOOL, EVENTS)
        return self

    def __exit__(self, *exc):
        M.set_events(TOOL, 0)
        self.peak = tracemalloc.get_traced_memory()[1] - self.base
        return False
