"""Which specification decides which property, for MANIFEST.json (tools/gen_manifest.py)."""
CHECKS = {}
_S = {"ListSpec": "L01", "MapSpec with Avl": "M01 M02 M03", "SetSpec": "X01", "Avl with Cost and CostBound": "X02", "StackSpec": "K01", "DictSpec": "D01", "Heap": "H01 H02 H03 G01 G02",
      "EnvSpec": "E01", "BoxSpec": "B01", "StrSpec": "S01", "TextSpec": "S02 S03", "ViewSpec": "V01", "JsonText with JsonParse": "J01 J02 J03 J04", "JsonPrint": "J05 J06",
      "JsonHeap": "J07 J08", "JsonSelect": "J09", "JsonParse": "J10", "JsonFile": "J11", "TextSpec (escape)": "J12", "SqlSpec": "Q01 Q02 Q03 Q04 Q05 Q06", "DbmSpec": "Q07 Q08"}
NOTES = {i: (s, "") for s, l in _S.items() for i in l.split()}
