"""Order of starting the proofs: expected seconds per proof, taken from the evidence files of the last runs."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(H, 'smallvc', 'costs.json')
c = json.load(open(P)) if os.path.exists(P) else {}
for f in glob.glob(os.path.join(H, 'evidence', 'P*.json')):
    for p in json.load(open(f))['coverage'].get('proofs', []):
        if p['status'] == 'ok' and p['seconds'] > 10:
            c[p['id']] = int(p['seconds'] / 10) * 10
json.dump(c, open(P, 'w'), indent=0, sort_keys=True)
