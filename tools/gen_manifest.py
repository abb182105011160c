#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "TLA+ specification checked with TLC; TLC-generated behaviours replayed against the real code"
A = "Bounded: everything the named TLC configurations enumerate, on the real code through its public API. Trusts TLC, the reference TLS 1.3 peer of the harness and Go's crypto library."
C = {
 "C01": (T + " (ClientHs)", A),
 "C02": (T + " (ServerHs)", A),
 "C03": (T + " (Mitm, Negotiate)", A),
 "C06": (T + " (Negotiate, ClientHs, ServerHs)", A),
 "C07": (T + " (Stream)", A),
 "C08": ("TLA+ trace specification (RecordTrace): record traces of the real code checked by TLC; traces generated from Stream, ClientHs, ServerHs", A + " Nonces and keys are observed at the AEAD that mint is given."),
 "C09": (T + " (Stream, Concur); recorded traces checked by TLC (RecordTrace)", A),
 "C10": (T + " (Early, ClientHs, ServerHs)", A),
 "C11": (T + " (Session, ClientHs, ServerHs)", A),
 "C12": (T + " (Cookie, CookieHonest, ServerHs, ClientHs)", A),
 "C13": (T + " (Dtls, Reasm)", A),
  "C17": (T + " (Codec: encoder, decoder and their catalogue of types)", A),
 "C18": (T + " (KeySched: symbolic key schedule, evaluated by the harness, which plays the other endpoint with it)", A),
 "C15": (T + " (SharedConfig, CloneFields); concurrent replays under the race detector", A),
 "C16": (T + " (Framing, Styles)", A),
 "C14": (T + " (Robust: the grammar of every message and programs of attacks on it; Calls: what a caller may see)", A + " Attacks are enumerated abstractly; bytes are drawn at random per attack."),
 "C19": (T + " (Alerts, AlertsHs, ClientHs, ServerHs)", A),
 "C04": (T + " (ClientHs, ServerHs)", A),
 "C05": (T + " (ClientHs, ServerHs, continuation after failure)", A),
}
NA = {}
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": C[i][0], "level": "model_checking", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
