"""Source-line events of the code under test (sys.monitoring)."""
import sys

from . import core

TOOL = 4
_prefixes = ()
_exclude = ()


def _line(code, lineno):
    fn = code.co_filename
    if not fn.startswith(_prefixes) or code.co_name == '<module>':
        return sys.monitoring.DISABLE
    if _exclude and fn.endswith(_exclude):
        return sys.monitoring.DISABLE
    w = core.WORLD
    if w is not None:
        w.line_event()


def install(prefixes, exclude=()):
    global _prefixes, _exclude
    _prefixes = tuple(prefixes)
    _exclude = tuple(exclude)
    m = sys.monitoring
    m.use_tool_id(TOOL, 'detsim')
    m.register_callback(TOOL, m.events.LINE, _line)
    m.set_events(TOOL, m.events.LINE)
