"""Which suites decide which property."""
SUITES = ["grid", "keyhandler", "uom", "engine", "tables", "files", "lm", "loader", "mandarin", "macros", "text", "learn"]
PROPS = {
    "C01": dict(suites=["grid"]),
    "C02": dict(suites=["grid"]),
    "C03": dict(suites=["grid", "keyhandler"]),
    "C04": dict(suites=["grid", "keyhandler"]),
    "C05": dict(suites=["keyhandler", "engine"]),
    "C06": dict(suites=["keyhandler", "engine"]),
    "C07": dict(suites=["keyhandler", "engine"]),
    "C08": dict(suites=["grid", "keyhandler"]),
    "C09": dict(suites=["keyhandler", "engine"]),
    "C10": dict(suites=["keyhandler", "engine"]),
    "C11": dict(suites=["keyhandler", "engine"]),
    "C12": dict(suites=["keyhandler", "engine"]),
    "C13": dict(suites=["keyhandler", "engine", "text"]),
    "C14": dict(suites=["keyhandler", "uom", "learn"]),
    "C15": dict(suites=["keyhandler", "engine"]),
    "E01": dict(suites=["engine"]),
    "E02": dict(suites=["engine"]),
    "E03": dict(suites=["engine"]),
    "L03": dict(suites=["tables"]),
    "L04": dict(suites=["tables"]),
    "L05": dict(suites=["tables"]),
    "L06": dict(suites=["files"]),
    "L01": dict(suites=["lm", "engine"]),
    "L02": dict(suites=["loader", "engine"]),
    "M01": dict(suites=["mandarin"]),
    "M02": dict(suites=["mandarin"]),
    "I01": dict(suites=["macros", "text", "learn"]),
    "T01": dict(suites=["text"]),
    "D01": dict(suites=["engine"]),
    "K01": dict(suites=["engine"]),
}
NA = {}
HOOKS = None
