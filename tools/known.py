#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo (run by hand)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {'258cf7b':'C22','8f2248c':'C06','89e3ed0':'C07','2106ccc':'C07','0a42738':'C07','d7857f6':'C08','9a1cea5':'C17','f9df83e':'C06','fe3e313':'C06','bdd17a6':'C05','538fc16':'C01','a6bb80d':'C02','7d6bcd0':'C05','da1a79c':'C05','5cb609e':'C05','3e75f95':'C05','0066386':'C05','b9a096e':'C05','a2cb7e1':'C01','417e6ac':'C05','082bc07':'C05','a3f28b9':'C04','584c32c':'C03','17b97d6':'C01','ce0ac2c':'C03','9673f12':'C01','031c52d':'C02','9eb005f':'C02','8018c7e':'C01','d18f1fb':'C21','2a048b0':'C09','1130beb':'C24','6697ccb':'C13','3645977':'C13','ac936e3':'C14','a9a968f':'C14','1ea0b9e':'C18','3e535c1':'C18','534ede3':'C18','a77f52d':'C18','accb25d':'C18','69be41f':'C22','d2f5a8c':'C22','202323a':'C21','b886707':'C05','715cf1f':'C12','248ba33':'C12','100a93b':'C12','e1186bb':'C17','382f177':'C18','e95265b':'C20','ced607e':'C22','38e7942':'C23','8303397':'C24','bfd6945':'C25','773ea42':'C25','e74875f':'C04','9184aba':'C28','91dc7b2':'C28','e7dfdaf':'C06'}
PROP.update(json.load(open(os.path.join(root,'tools','fixprops.json'))) if os.path.exists(os.path.join(root,'tools','fixprops.json')) else {})
out = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True)
fixed = []
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: ') and h in PROP:
        fixed.append(f"fixed: property={PROP[h]} {h} {s[5:]}")
    elif s.startswith('fix: '):
        print('no property:', l)
p = os.path.join(root,'known_findings.json'); d = json.load(open(p)); d['fixed'] = fixed
json.dump(d, open(p,'w'), indent=1, ensure_ascii=False); open(p,'a').write('\n')
print(len(fixed))
