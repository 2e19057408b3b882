"""What a user's own subclasses of solph's classes look like."""

import types

from oemof import solph
from oemof.solph import components as cmp

COMPONENTS = {}
for _k in ("Source", "Sink", "Converter", "Link", "GenericStorage",
           "OffsetConverter", "ExtractionTurbineCHP", "GenericCHP"):
    COMPONENTS[_k] = type(
        "My" + _k, (getattr(cmp, _k),),
        {"__doc__": "of a user", "__module__": __name__},
    )
    # found by name when restored from a dump
    globals()["My" + _k] = COMPONENTS[_k]
CLASSES = {}
for _k in ("Bus", "EnergySystem", "Flow", "Investment", "NonConvex"):
    CLASSES[_k] = type(
        "My" + _k, (getattr(solph, _k),),
        {"__doc__": "of a user", "__module__": __name__},
    )
    globals()["My" + _k] = CLASSES[_k]

own_components = types.SimpleNamespace(
    **COMPONENTS, experimental=cmp.experimental
)
own_solph = types.SimpleNamespace(
    **{
        **{k: getattr(solph, k) for k in dir(solph) if k[:2] != "__"},
        **CLASSES,
    }
)
