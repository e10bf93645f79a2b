from typing import Any, Dict

ZoneRule = Dict[str, Any]
ZonePolicy = Dict[str, Any]
ZonePolicyMap = Dict[str, ZonePolicy]
ZoneEra = Dict[str, Any]
ZoneInfo = Dict[str, Any]
ZoneInfoMap = Dict[str, ZoneInfo]
