"""Fixed test keys (committed, so that no check spends time generating keys)."""
import json
import os

_F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys.json")


def load():
    with open(_F) as f:
        return json.load(f)


if __name__ == "__main__":
    from cryptojwt.key_jar import build_keyjar

    KD = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
    res = {}
    for who in ["op", "client_1", "client_2", "client_3", "foreign"]:
        res[who] = build_keyjar(KD).export_jwks(private=True)
    with open(_F, "w") as f:
        json.dump(res, f, indent=1)
