"""What each property's check runs and which clauses of the specification decide it.

builders : (weight, session builder of gen.Gen, kinds)
clauses  : clauses of Trace.tla that belong to the property
"""
ALL = ["CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"]
FAST = [k for k in ALL if k != "rCIP"]

VALUE = ["value", "gross", "raised", "real"]


def _v(*kinds):
    return dict(builders=[(1.0, "value", list(kinds))], clauses=VALUE)


PROPS = {
    "C01": dict(builders=[(0.5, "batchinc", ALL), (0.5, "batchinc", FAST)], clauses=["same", "raised"]),
    "C02": _v("CH"),
    "C03": _v("WB", "XB"),
    "C04": _v("DB"),
    "C05": _v("GD43", "GD53"),
    "C06": _v("cSIL"),
    "C07": _v("PS"),
    "C08": _v("rCIP"),
    "C09": dict(builders=[(0.4, "rename", ALL), (0.6, "rename", FAST)], clauses=["same", "raised"]),
    "C10": dict(builders=[(0.4, "reorder", ALL), (0.6, "reorder", FAST)], clauses=["same", "raised"]),
    "C11": dict(builders=[(0.4, "geometry", ALL), (0.6, "geometry", FAST)], clauses=["geom", "scale", "raised"]),
    "C12": dict(builders=[(1.0, "onecluster", ALL)], clauses=["zero", "attr0", "value", "raised"]),
    "C13": dict(builders=[(1.0, "lifecycle", ALL)], clauses=["admit", "raised"]),
    "C14": dict(builders=[(1.0, "lifecycle", ALL)], clauses=["noeffect", "ident", "poke", "raised"]),
    "C15": dict(builders=[(1.0, "interleave", ALL)], clauses=["ident", "copy", "poke", "value", "raised"]),
    "C16": dict(builders=[(0.4, "buffers", ALL), (0.6, "buffers", FAST)],
                clauses=["arg", "ident", "poke", "value", "raised"]),
    "C17": dict(builders=[(0.93, "report", ALL), (0.07, "long", FAST)], clauses=["attr", "real", "poke"]),
    "C18": dict(builders=[(0.4, "layouts", ALL), (0.6, "layouts", FAST)], clauses=["same", "raised"]),
    "C19": dict(builders=[(0.4, "ranges", ALL), (0.6, "ranges", FAST)], clauses=["range", "raised"]),
    "C20": dict(builders=[(1.0, "long", ALL)], clauses=["gross", "raised"]),
    "C22": dict(builders=[(1.0, "replicas", FAST)], clauses=["rep", "pad", "raised"]),
    "C21": dict(builders=[(1.0, "degenerate", ALL)], clauses=["undef", "raised", "value"]),
}

# (TLC budget per shard in estimated milliseconds, sessions per shard)
for _p in PROPS.values():
    _p.setdefault("size", {"quick": (8000, 2500), "thorough": (60000, 20000)})
PROPS["C20"]["size"] = {"quick": (12000, 60), "thorough": (120000, 400)}

# Runs of TLC over the specification itself (pure: no override of Rat), and the
# generators whose behaviours are stepped through the real code.
_VAL = ["C02", "C03", "C04", "C05", "C06", "C07", "C08"]
_REL = ["C01", "C09", "C10", "C12", "C16", "C17", "C18", "C19", "C20", "C21"]
Q, T = ("quick",), ("thorough",)


def _m(module, cfg, props, tiers, **kw):
    return dict(module=module, cfg=cfg + ".cfg", props=props, tiers=tiers, **kw)


def _g(module, cfg, props, tiers, **kw):
    return _m(module, cfg, props, tiers, override=True, replay="val" if module == "GenVal" else "life", **kw)


MODELS = [
    _m("MC_RatLaws", "MC_RatLaws_p", ["C02", "C03", "C20"], Q + T),
    _m("MC_RatLaws", "MC_RatLaws_o", ["C07", "C08", "C20"], Q + T, override=True),
    _m("MC_Rec", "MC_Rec_q2", _VAL + ["C01", "C10", "C12", "C19", "C20", "C21"], Q),
    _m("MC_Rec", "MC_Rec_q1", ["C01"], Q),
    _m("MC_Rec", "MC_Rec_t1", _VAL + ["C01", "C10", "C12", "C19", "C20", "C21"], T),
    _m("MC_Rec", "MC_Rec_t2", _VAL + ["C01", "C10"], T),
    _m("MC_Rec", "MC_Rec_t3", ["C01", "C10", "C19", "C21"], T),
    _m("MC_Rec", "MC_Rec_t4", ["C01", "C08"], T),
    _m("MC_Sym", "MC_Sym_q1", ["C09", "C10", "C11", "C22"], Q),
    _m("MC_Sym", "MC_Sym_q2", ["C09", "C10", "C11", "C22", "C18"], Q),
    _m("MC_Sym", "MC_Sym_t1", ["C09", "C10", "C11", "C22"], T, workers=3),
    _m("MC_Sym", "MC_Sym_t2", ["C09", "C10", "C11", "C22", "C18"], T),
    _m("MC_Life", "MC_Life_q", ["C09", "C13", "C14", "C15", "C16", "C17"], Q),
    _m("MC_Life", "MC_Life_t", ["C09", "C13", "C14", "C15", "C16", "C17"], T),
    _g("GenVal", "GenVal_q5", _VAL, Q + T),
    _g("GenVal", "GenVal_q1", _REL, Q),
    _g("GenVal", "GenVal_q2", _VAL + _REL, Q),
    _g("GenVal", "GenVal_q5", _REL, T),
    _g("GenVal", "GenVal_t2", _VAL + _REL, T),
    _g("GenVal", "GenVal_t3", _VAL + _REL, T),
    _g("GenVal", "GenVal_t4", _VAL, T),
    _g("GenVal", "GenVal_t6", _VAL, T),
    _g("GenLife", "GenLife_q1", ["C13", "C14", "C16", "C17"], Q),
    _g("GenLife", "GenLife_q2", ["C13", "C14", "C15", "C16"], Q),
    _g("GenLife", "GenLife_t1", ["C13", "C14", "C16", "C17"], T),
    _g("GenLife", "GenLife_t2", ["C13", "C14", "C15", "C16"], T),
    _g("GenLife", "GenLife_t3", ["C13", "C14", "C15", "C16"], T),
]
