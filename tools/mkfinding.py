#!/usr/bin/env python3
"""Writes the replay cases of findings that cannot come from the generators (see known_findings.txt)."""
import json, os, copy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def base():
    return {
        "agency": [{"agency_id": "a", "agency_name": "A", "agency_url": "http://a.example", "agency_timezone": "Europe/Berlin"}],
        "stops": [{"stop_id": "s%d" % i, "stop_name": "S%d" % i, "stop_lat": "47.99%d" % i, "stop_lon": "7.85"} for i in range(3)],
        "routes": [{"route_id": "r", "agency_id": "a", "route_short_name": "1", "route_type": "3"}],
        "calendar": [{"service_id": "w", "monday": "1", "tuesday": "1", "wednesday": "1", "thursday": "1", "friday": "1", "saturday": "0", "sunday": "0", "start_date": "20230102", "end_date": "20230127"}],
        "trips": [{"route_id": "r", "service_id": "w", "trip_id": "t"}],
        "stop_times": [{"trip_id": "t", "stop_id": "s%d" % i, "arrival_time": "08:0%d:00" % i, "departure_time": "08:0%d:00" % i, "stop_sequence": str(i)} for i in range(3)],
    }

def put(name, prop, kind, feed, args, meta=None):
    d = os.path.join(ROOT, "findings", name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "case.json"), "w") as f:
        json.dump({"property": prop, "kind": kind, "case": {"feeds": [{"T": feed, "Cols": {}}], "args": args, "procs": 1, "meta": meta or {}}}, f, indent=1, sort_keys=True)
        f.write("\n")

f = base()
f["calendar"][0]["x_tag"] = "v"
put("C28-calendar", "C28", "calendar-lost", f, ["-F"])

# ---- error handling (C22) and validation (C23) ----
F = {"finding": "1"}
SAME = ["duplicate-trip", "duplicate-fare", "duplicate-service", "frequency-time"]

def broken(kind):
    f = base()
    if kind == "duplicate-trip":
        f["trips"].append({"route_id": "r", "service_id": "w", "trip_id": "t", "trip_headsign": "twice"})
    if kind == "duplicate-fare":
        f["fare_attributes"] = [{"fare_id": "f", "price": "1", "currency_type": "EUR", "payment_method": "0", "transfers": ""},
                                {"fare_id": "f", "price": "2", "currency_type": "EUR", "payment_method": "0", "transfers": ""}]
    if kind == "duplicate-service":
        f["calendar"].append(dict(f["calendar"][0], saturday="1"))
    if kind == "frequency-time":
        f["frequencies"] = [{"trip_id": "t", "start_time": "", "end_time": "09:00:00", "headway_secs": "600"}]
    if kind == "timepoint":
        f["stop_times"][1].update(arrival_time="", departure_time="", timepoint="1")
    if kind == "nodefault":
        f["stops"][1]["level_id"] = "nope"
    if kind == "fare-agency":
        f["agency"].append(dict(f["agency"][0], agency_id="b", agency_name="B"))
        f["fare_attributes"] = [{"fare_id": "f", "price": "1", "currency_type": "EUR", "payment_method": "0", "transfers": "", "agency_id": "nope"}]
    if kind == "chain":
        for i in range(12):
            f["stops"].append({"stop_id": "p%d" % i, "stop_name": "P", "stop_lat": "47.9", "stop_lon": "7.8", "parent_station": "nope"})
            f["stops"].append({"stop_id": "b%d" % i, "stop_name": "B", "location_type": "4", "parent_station": "p%d" % i})
    return f

for k in SAME + ["timepoint"]:
    put("C22-" + k, "C22", k, broken(k), ["-D"], F)
for k in ["nodefault", "fare-agency"]:
    put("C22-" + k, "C22", k, broken(k), ["-e"], F)
put("C22-chain", "C22", "chain", broken("chain"), ["-D"], F)
for k in SAME:
    put("C23-" + k, "C23", k, broken(k), ["-v"], F)
