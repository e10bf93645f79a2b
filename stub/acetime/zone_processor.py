"""A scripted ZoneProcessor.

SCRIPT maps a zone name to {'sizes': {year: (active, buffer)},
'default': (active, buffer), 'terminal': first terminal year}.  Every call is
recorded in LOG so the harness can hand it to the specification.
"""
import json
import os
from typing import Any, Dict, List, NamedTuple, Tuple


class BufferSizeInfo(NamedTuple):
    active_size: int
    buffer_size: int


SCRIPT: Dict[str, Any] = {}
LOG: List[Tuple[str, Any]] = []
DEFAULT = {'sizes': {}, 'default': (1, 1), 'terminal': 0}


if os.environ.get('ACETIME_SCRIPT'):
    for _n, _s in json.loads(os.environ['ACETIME_SCRIPT']).items():
        SCRIPT[_n] = {'sizes': {int(y): (v, v) for y, v in _s['sizes'].items()},
                      'default': (_s['default'], _s['default']), 'terminal': _s['terminal']}


class ZoneProcessor:
    def __init__(self, zone_info: Any, *args: Any, **kwargs: Any) -> None:
        self.zone_info = zone_info
        self.name = zone_info['name']
        self.script = SCRIPT.get(self.name, DEFAULT)
        self.year = None
        LOG.append(('new', zone_info))

    def init_for_year(self, year: int) -> None:
        self.year = year
        LOG.append(('init', self.name, year))

    def get_buffer_sizes(self) -> BufferSizeInfo:
        a, b = self.script['sizes'].get(self.year, self.script['default'])
        return BufferSizeInfo(active_size=a, buffer_size=b)

    def is_terminal_year(self, year: int) -> bool:
        return year >= self.script['terminal']
