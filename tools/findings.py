#!/usr/bin/env python3
"""Write the "fixed" list of KNOWN_FINDINGS.json: one line by "fix:" commit of /repo"""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property which shows the defect of each commit
PROPERTY = dict(
    x.split(":") for x in """
2000b37:C02 fa94fca:C02 845ac7c:C03 f216d5c:C03 fb0064a:C03 97c1595:C04 20f69c9:C06 7edb5ac:C08 aa7bb47:C08 bfd0184:C08
16c3463:C08 8708aa1:C12 8469dfe:C09 a191c8c:C11 bd03460:C11 a1f0f86:C11 4673cef:C10 e046b84:C13 d9dbfe7:C13 d3ac372:C13
d400004:C12 8659c8a:C12 7079403:C12 dc2c478:C12 1d3187d:C12 4d2eec2:C12 79014a9:C14 6ef9f15:C15 0b13da2:C14 dcf03f9:C14
b3a090e:C14 a398d67:C16 586a70c:C16 11ea23b:C17 37107a9:C17 41a07f1:C17 b058aaf:C17 68d1ce3:C17 5876831:C29 3b1246c:C18
107e979:C18 403dc6f:C18 30eff35:C19 f63f646:C19 41a4ef4:C19 34c7323:C20 257622f:C20 2af88d8:C21 39d3f67:C21 319cf4b:C21
18097c7:C21 96457a9:C21 cb73eef:C22 e25c5e6:C22 542c4d0:C22 10f2751:C23 b822daf:C23 b8c8277:C24 8659688:C31 515652f:C31
b00da2e:C28 e78bb73:C28 ac77d84:C29 8925131:C26 a180977:C26 6942b97:C26 8585cdd:C26 d0d9dd4:C26 37cb1bd:C26 4eede90:C27
d231ca9:C27 0928803:C30 27bcf63:C30 82c0acb:C32 08a17ed:C32 619ecb7:C30 b118636:C33 ccf7758:C33 47e67b8:C33 fbd7595:C14
""".split()
)
log = subprocess.run(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "ac1934b..HEAD"], capture_output=True, text=True, check=True
).stdout.splitlines()
extra = os.path.join(ROOT, "tools", "findings.txt")
if os.path.exists(extra):
    with open(extra) as h:
        PROPERTY.update(dict(x.split(":") for x in h.read().split()))
path = os.path.join(ROOT, "KNOWN_FINDINGS.json")
with open(path) as h:
    data = json.load(h)
data["fixed"] = list()
for line in log:
    commit, text = line.split(" ", 1)
    if commit[:7] not in PROPERTY:
        print("no property for", line)
        continue
    data["fixed"].append(f"fixed: property={PROPERTY[commit[:7]]} {commit} {text.removeprefix('fix: ')}")
with open(path, "w") as h:
    json.dump(data, h, indent=1)
print(len(data["fixed"]), "fixed")
