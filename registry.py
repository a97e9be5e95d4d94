"""property id -> [(harness module, environment name or None)]"""
import os

_ENVS = {"c40": "cairofake", "c39": "cairofake", "c09": "cairofake", "c38": "latexfake", "c32": "renderfake", "c31": "markofake", "c29": "imgfake", "c36": "renderfake", "c26": "renderfake", "c28": "renderfake", "c13": "pygstub", "c16": "cairofake", "c22": "cairofake", "c23": "cairofake", "c21": "cairofake", "c19": "imgfake", "c20": "imgfake", "c33": "etfake", "c24": "fsfake", "c25": "threadfake", "c35": "etfake", "c34": "etfake"}
_HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = {}
for _i in range(1, 60):
    _m = "c%02d" % _i
    if os.path.exists(os.path.join(_HERE, "props", _m + ".py")):
        PROPS["C%02d" % _i] = [("props." + _m, _ENVS.get(_m))]

PROPS["C29"].append(("props.c29r", "renderfake"))
PROPS["C39"].append(("props.c39f", "renderfake"))

NOT_APPLICABLE = {}
