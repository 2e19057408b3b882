import importlib

# slug -> the id of the property in properties.jsonl
IDS = {
    "bus-balance": "C01",
    "flow-bounds": "C02",
    "variable-costs": "C03",
    "full-load-time": "C04",
    "flow-gradients": "C05",
    "integer-flows": "C06",
    "nonconvex-status": "C07",
    "min-up-down-time": "C08",
    "startups-shutdowns": "C09",
    "invest-nonconvex": "C10",
    "invest-flow": "C11",
    "converter": "C12",
    "link": "C13",
    "extraction-chp": "C14",
    "generic-chp": "C15",
    "offset-converter": "C16",
    "storage-dispatch": "C17",
    "soc-charging": "C18",
    "storage-invest": "C19",
    "multi-capacity": "C20",
    "multi-objective": "C21",
    "tsam-weighting": "C22",
    "tsam-storage": "C23",
    "integral-limits": "C24",
    "invest-limits": "C25",
    "equate": "C26",
    "active-flow-count": "C27",
    "shared-limit": "C28",
    "storage-level": "C29",
    "time-index": "C30",
    "input-validation": "C31",
    "results-object": "C32",
    "processing": "C33",
    "solve-status": "C34",
    "solve-optimal": "C35",
    "representation": "C36",
    "refinement": "C37",
    "dump-restore": "C38",
    "sequences": "C39",
    "slope-helpers": "C40",
    "parameters": "C41",
    "views": "C42",
    "composition": "C43",
    "experimental": "C44",
    "multi-storage": "C45",
    "duals": "C46",
    "purity": "C47",
    "tsam-invest-storage": "C48",
    "cost-shares": "C49",
    "user-parts": "C50",
    "growing-models": "C51",
    "warnings": "C52",
}
_MODULES = [
    "flows",
    "commit",
    "convert",
    "storage",
    "invest",
    "limits",
    "multi",
    "tsam",
    "outputs",
    "viewing",
    "timeaxis",
    "validation",
    "experimental",
    "plumbing",
    "compose",
    "shares",
    "solving",
    "meta",
    "extend",
    "warned",
]
REGISTRY = {}


def register(prop):
    prop.slug = prop.id
    prop.id = IDS[prop.slug]
    REGISTRY[prop.id] = REGISTRY[prop.slug] = prop
    return prop


def load():
    for m in _MODULES:
        importlib.import_module(f"{__name__}.{m}")


def get(pid):
    load()
    return REGISTRY[pid]
