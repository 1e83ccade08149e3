"""Lists the repairs in /repo in known-findings.json: python3 tools/fixed.py"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = """
3f24c5c C25
c87381b C24
21e79c9 C24
d2d52ab C24
5d81d81 C24
b5dfaf5 C19
51540d5 C19
6f39d92 C19
ca19291 C21
dec1fb3 C21
e35bcb8 C17
425535a C10
9c2fc10 C10
570fb7f C10
573e285 C15
77d706a C15
f3751fc C22
9c50a72 C22
d9efc91 C22
775bca5 C22
104f374 C18
d08ef2a C05
b1b4cf8 C14
457248e C02
62a66a7 C15
d35b0db C15
fcdec38 C16
08c3876 C14
6d53873 C12
862db1c C13
9f09d73 C13
ca5ff04 C13
ee19c99 C20
75e4a1d C07
57ff55f C23
8497009 C20
d9d9b4f C09
204cc5f C22
338b5ee C25
453a15a C06
c4f10d3 C09
16a94bb C09
1b643ec C08
54560df C08
8afcc97 C08
bfee747 C06
d2936f7 C07
4b3e23d C11
9de5b97 C06
5c68c4e C06
b40d460 C06
4bb5b2c C04
b54e908 C04
b407bd3 C04
7573d2e C01
f2cd978 C01
fd9dd84 C25
ec93698 C08
e2dd192 C03
50dde75 C01
1f7ba9f C25
b88307c C01
e7a0317 C01
5429e32 C13
64bc4fb C13
e04248f C09
10c6415 C05
78a50ed C13
b26bc49 C17
f25fee3 C17
68df315 C17
ccd13b4 C17
""".split()
PROPERTY = dict(zip(PROPERTY[::2], PROPERTY[1::2]))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %H %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for line in log:
    short, full, subject = line.split(" ", 2)
    if subject.startswith("fix: ") and short in PROPERTY or short in PROPERTY:
        out.append(f"fixed: property={PROPERTY[short]} {full[:12]} {subject[5:]}")
path = os.path.join(HERE, "known-findings.json")
d = json.load(open(path))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
missing = [x for x in log if x.split(" ", 2)[2].startswith("fix: ") and x.split()[0] not in PROPERTY]
print(len(out), "listed;", "not listed:", [x for x in missing][-5:])
