import json,os
print("## Planted bugs and the checks that catch them\nEach was confirmed with `tools/plant.py` (builds, the stable tests pass, the demonstration fails with it only), and the check of its\nproperty run on it.\n\n| bug | property | needs | caught |\n|---|---|---|---|")
miss=set(open('/tmp/missed').read().split()) if os.path.exists('/tmp/missed') else set()
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d))
    print("| %s | %s | %s | %s |"%(d,m['property'],m['needs'].replace('|','/').replace('\n',' '),'no' if d in miss else 'yes'))
