"""Registry: property id -> check."""
from . import checks_special as m

CHECKS = {"C%02d" % k: getattr(m, "c%02d" % k) for k in range(1, 20) if hasattr(m, "c%02d" % k)}
