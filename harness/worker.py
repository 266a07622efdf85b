"""worker.py PROP SEED TIER SHARD OUT TLC_BUDGET SESSIONS
Generates and records sessions of the real code; writes the trace shard OUT
(ndjson) and OUT.stat (json)."""
import json
import sys
import time

import rec  # (imports the code under test)
import gen
from rec import cost
from props import PROPS


def weight(S):
    """Rough cost of validating a session, in milliseconds of TLC time."""
    w, k, d, kinds = 0.0, {}, 1, {}
    for e in S.ev:
        o = e["o"]
        if e["op"] == "new":
            k[o], kinds[o] = set(), list(e["attr"])
        elif e["op"] == "copy":
            k[o], kinds[o] = set(k[e["from"]]), list(e["attr"])
        elif e["op"] == "call":
            if e["X"]:
                d = len(e["X"][0])
            if e["nd"] in (1, 2):
                k[o] |= set(e["L"])
            w += 0.15 + 0.03 * len(e["X"]) * d * (1 + (d if "rCIP" in e["obs"] else 0))
            if e["chk"]:
                w += cost(len(k[o]), d, kinds[o])
        elif e["op"] == "cmp":
            w += 0.3 + (cost(len(k[e["a"]]), d, kinds[e["a"]]) + cost(len(k[e["b"]]), d, kinds[e["b"]])
                        if e["rel"] != "ident" else 0)
    return w


def main():
    prop, seed, tier, shard, out, budget, sessions = sys.argv[1:8]
    G = gen.Gen([int(seed), int(shard), int(prop[1:])], tier)
    cfg = PROPS[prop]["builders"]
    rec.VALUES = bool({"value", "gross", "zero", "same", "geom", "scale", "range", "undef"}
                      & set(PROPS[prop]["clauses"]))
    ws = [b[0] for b in cfg]
    tot = sum(ws)
    budget, sessions = float(budget), int(sessions)
    t0 = time.time()
    wall = 40.0 if tier == "quick" else 600.0
    rec.DEADLINE = t0 + 2 * wall
    st = dict(cut=0, sessions=0, calls=0, shipped=0, suspect=0, events=0, weight=0.0, builders={}, sample=None)
    seen, keep, room = set(), [], max(budget, 20000.0)
    for i in range(sessions):
        _, name, kinds = cfg[int(G.rng.choice(len(cfg), p=[w / tot for w in ws]))]
        try:
            S = getattr(G, name)(list(kinds))
        except rec.OutOfTime as ex:
            S = ex.session
            S.end()
            st["cut"] = 1
        S.sid = "%s.%s.%s" % (seed, shard, S.sid)
        for e in S.ev:
            e["sid"] = S.sid
        st["sessions"] += 1
        st["calls"] += S.ncalls
        st["builders"][name] = st["builders"].get(name, 0) + 1
        seen.add(hash(json.dumps([(e.get("X"), e.get("L")) for e in S.ev if e["op"] == "call"])))
        ship = st["weight"] < budget
        w = weight(S) if ship or S.suspect else 0.0
        if S.suspect and st["suspect"] < 12 and (w < room or not st["suspect"]):
            st["suspect"] += 1
            room -= w
            keep.append((0, w, S))
        elif ship and w < 0.5 * budget:
            keep.append((1, st["shipped"], S))
            st["weight"] += w
        if keep and keep[-1][2] is S:
            st["shipped"] += 1
            st["events"] += len(S.ev)
            if st["sample"] is None or len(st["sample"]) > 12 and len(S.ev) < len(st["sample"]):
                st["sample"] = S.ev[:12]
        if time.time() - t0 > wall:
            break
        if st["suspect"] >= 12 and st["weight"] >= budget:
            break
    # what looks suspicious comes first, the cheapest of it before the rest
    with open(out, "w") as fh:
        for _, _, S in sorted(keep, key=lambda t: t[:2]):
            S.dump(fh)
    st["distinct"] = len(seen)
    st["secs"] = time.time() - t0
    json.dump(st, open(out + ".stat", "w"))


if __name__ == "__main__":
    main()
