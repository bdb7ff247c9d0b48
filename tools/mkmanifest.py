#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
CLAIM={
"C01":("runtime monitor: scanners driven with boundary and random driver values, online big.Int/strconv/time oracle","Exploration: held on every (destination, value) pair executed; trusts strconv, math/big, time."),
"C02":("runtime monitor: scan histories over every column type, content oracle plus buffer poisoning","Exploration: all scan sequences of length 2 over the source list, random longer ones; aliasing observed by overwriting the driver's buffers."),
"C03":("runtime monitor: pgtype codecs against an independent array_in/array_out, with mutation","Exploration; trusts the harness' reading of the PostgreSQL array text format."),
"C04":("runtime monitor: sqltype codecs and slice marshallers against encoding/json, with random spellings and mutation","Exploration; trusts encoding/json."),
"C05":("runtime monitor: adapters driven with random values, failing marshallers and hostile content against direct marshaller calls","Exploration; trusts encoding/json and the types' own marshallers."),
}
exec(open("/verif/tools/claims.py").read()) if __import__("os").path.exists("/verif/tools/claims.py") else None
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    if p in CLAIM:
        t,n=CLAIM[p][:2]
        m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p}","technique":t,"level":"exploration","level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":"not claimed yet: the generated-code monitor for it is still being built"})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
