from . import file_rules as fr
from . import open_rules as orl
from . import conv_rules as cv

from . import taint_rules as tr_flow  # noqa: E402
CHECKS = {
    "C01": fr.check_c01,
    "C02": fr.check_c02,
    "C03": fr.check_c03,
    "C04": orl.check_c04,
    "C05": orl.check_c05,
    "C06": cv.check_c06,
    "C07": fr.check_c07,
}

from . import refs_rules as rr  # noqa: E402

CHECKS["C08"] = rr.check_c08
CHECKS["C09"] = rr.check_c09

from . import options_rules as opr  # noqa: E402

CHECKS["C10"] = opr.check_c10
CHECKS["C11"] = opr.check_c11

from . import coll_rules as colr  # noqa: E402

for _k in ("C12", "C13", "C14", "C26"):
    CHECKS[_k] = getattr(colr, "check_" + _k.lower())

from . import path_rules as pr  # noqa: E402

for _k in ("C24", "C25"):
    CHECKS[_k] = getattr(pr, "check_" + _k.lower())

from . import trip_rules as tr  # noqa: E402

for _k in ("C22", "C23", "C27", "C28", "C29", "C31", "C32", "C33"):
    CHECKS[_k] = getattr(tr, "check_" + _k.lower())

from . import meta_rules as mr  # noqa: E402

CHECKS["C15"] = mr.check_c15
CHECKS["C16"] = mr.check_c16

from . import effect_rules as er  # noqa: E402

CHECKS["C17"] = er.check_c17
CHECKS["C18"] = er.check_c18
CHECKS["C19"] = er.check_c19
CHECKS["C20"] = er.check_c20
CHECKS["C21"] = tr_flow.check_c21

from . import reader_rules as rr  # noqa: E402

CHECKS["C30"] = rr.check_c30

from . import iface_rules as ifr  # noqa: E402

CHECKS["C34"] = ifr.check_c34

from . import form_rules as fr  # noqa: E402

CHECKS["C35"] = fr.check_c35
CHECKS["C36"] = fr.check_c36
