#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand after the plan changes)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
TECH = ("explicit TLA+ specification; TLC checks the property on bounded models of it; behaviours of the models and randomly "
        "generated call sequences are replayed on the real library and TLC validates every recorded trace against the specification")
TECHS = {
    'P20': ("differential execution of the library and the single header on the behaviours generated from the TLA+ models of all other properties and on "
            "random call sequences; TLC validates the traces that differ, and a sample of the others, against the specification"),
    'P24': TECH + '; the same with every object in a thread of its own (ThreadSanitizer), one trace per object',
}
LEVEL = ("Exhaustive for the specification within the bounds of the models (families of definitions x all command lines or call histories "
         "up to a length); the implementation is bound to it by trace validation of those behaviours and of random call sequences (built with "
         "ASan/UBSan), so a change is detected when an explored behaviour shows it.")
m = dict(version=1, setup_cmd='python3 check.py --setup',
         checks=[dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p,
                      evidence_file='evidence/%s.json' % p, technique=TECHS.get(p, TECH), level='model_checking', level_note=NOTE.get(p, LEVEL)) for p in props],
         not_applicable=[])
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
