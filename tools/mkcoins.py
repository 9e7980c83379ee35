#!/usr/bin/env python3
"""Wrote data/coins.json once, from the documented table; the file is committed and never regenerated by a check."""
import json, sys, inspect
sys.path.insert(0, "/repo")
import bip38.cryptocurrencies as c
out = {}
for n, k in inspect.getmembers(c, inspect.isclass):
    if issubclass(k, c.ICryptocurrency) and k is not c.ICryptocurrency:
        out[n] = dict(alphabet=k.ALPHABET, networks={m: [v["wif_prefix"], v["address_prefix"]] for m, v in k.NETWORKS.items()})
json.dump(out, open("/verif/data/coins.json", "w"), indent=0, sort_keys=True)
print(len(out), sum(len(v["networks"]) for v in out.values()))
