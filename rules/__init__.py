from rules import create as _c
from rules import decrypt as _d
from rules import devices as _v
from rules import encrypt as _e
from rules import general as _g
from rules import info as _i
from rules import keypair as _k
from rules import manager as _m
from rules import rotation as _r
from rules import storage as _s

REGISTRY = {"C01": _e.c01, "C02": _d.c02, "C03": _e.c03, "C04": _e.c04, "C05": _e.c05, "C06": _e.c06, "C07": _e.c07,
            "C08": _d.c08, "C09": _d.c09, "C10": _d.c10, "C11": _d.c11, "C12": _m.c12, "C13": _v.c13, "C14": _s.c14, "C15": _s.c15, "C16": _s.c16, "C17": _g.c17, "C18": _v.c18, "C26": _s.c26, "C27": _g.c27, "C28": _g.c28, "C29": _g.c29, "C19": _m.c19, "C20": _c.c20, "C21": _c.c21, "C22": _k.c22, "C23": _r.c23,
            "C24": _m.c24, "C25": _m.c25, "C30": _m.c30, "C31": _i.c31, "C36": _v.c36, "C37": _i.c37, "C38": _g.c38, "C32": _m.c32}
