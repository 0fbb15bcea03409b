"""known-findings.json: genuine defects of the code that are recorded instead of repaired (and the repaired ones)."""
import json, os, re
V=os.path.dirname(os.path.abspath(__file__))
def load(prop):
    p=V+'/known-findings.json'
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property']==prop]
def match(known,key,what):
    """a failing input of the replay harness"""
    for k in known:
        if k.get('key')==key and re.search(k.get('input','.'),what): return k
    return None
def match_ob(known,e):
    """a failed proof obligation: identified by function and obligation text"""
    labs=' ; '.join(b for b,_ in e['labels'])
    for k in known:
        if k.get('obligation') and re.search(k['obligation'],labs): return k
    return None
