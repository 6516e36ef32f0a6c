"""The properties and how each is decided."""
import scen

PROPS = {}
for _id in ("H01", "F01", "G01", "G02", "E01", "W01", "W02", "R01", "R02", "S01", "S02", "P01", "U01", "T01", "T02", "T03", "N01", "K01", "K02", "K03", "C01", "X01", "L01", "M01", "Q01", "Q02"):
    PROPS[_id] = {"plan": getattr(scen, _id), "level": "fault_enumeration" if _id == "K03" else "model_checking"}
for _id in ("Q01", "Q02"):
    PROPS[_id]["first"] = "pair-lock"
