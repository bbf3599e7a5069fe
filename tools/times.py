"""times.py ID...: what the instances of the last runs took."""
import json, sys
for p in sys.argv[1:]:
    for i in json.load(open('evidence/%s.json' % p))['coverage'].get('instances', []): print(p, i['name'], i['paths'], 'paths', i['queries'], 'queries', round(i['solver_s'], 1), round(i['wall_s'], 1))
