import json, subprocess
P = dict(l.split() for l in """
19f324e C35
07f87c9 C06
e83c5aa C33
d14723e C02
03999fc C34
2df16ea C12
42aa5a7 C26
2e6060e C31
ad8bcb5 C24
9bd8436 C34
4bdf5d4 C29
d737cfe C21
a7aed22 C21
0fb3b6e C19
7e8e9a4 C36
8704aad C35
673e3b4 C35
24aa075 C35
1c81dbb C17
d72e0d4 C15
63ad695 C15
633e5d4 C15
36a0460 C15
bc9bd75 C15
4840711 C15
e9f1f34 C15
00014f5 C15
a46033e C15
3e0f598 C15
82ce6a0 C15
d776499 C15
7e60338 C26
eb6309f C30
d5be8c4 C30
f65b7b8 C30
62ed6fc C25
e3bef47 C26
c1c6c98 C26
ee9bfe0 C26
97108c7 C26
4476ecc C26
6f91e5c C34
e2e9395 C33
2d7be1d C31
70485e7 C32
4fe594a C32
266e94e C27
f666bec C27
af0b124 C27
dc494a6 C22
4d20a42 C22
ee93f52 C22
d22fd7b C22
4694cea C22
584e13d C23
3fda476 C23
1489248 C23
7d44075 C24
6c85a48 C19
a3f9f42 C29
953d646 C29
f45c19e C29
f4bddca C29
782c27f C29
ede5249 C19
fda6c72 C19
4dcf867 C16
9c52d8e C14
6803947 C14
9c5454c C13
eb3570b C12
6a59b12 C12
a7e421b C28
58daa37 C28
7830c21 C11
5d9212d C11
05cf218 C11
bece953 C09
87524ea C09
c87de42 C09
cde2952 C08
16ff52e C08
c17dcff C04
59732e9 C04
3cb52be C03
3bd418b C03
15df0a1 C07
5ce77b2 C07
44a926e C06
bbf5f93 C06
a28e739 C06
d239a2e C06
b822f06 C06
b63384d C06
087f06b C20
f819ffd C20
2d5787a C20
b3a40d1 C20
9987736 C21
7de1342 C02
59198da C02
e40d1bc C18
49f048d C18
2ad339f C18
53a9d21 C18
3b5bcda C17
5ce78fc C10
2b9286e C10
ec10a1a C10
c2da3fc C10
82592e7 C01
f35877d C01
9dc0031 C01
e91db38 C01
57d547f C01
b0d7274 C01
69ade1f C01
""".split("\n") if l.strip())
log = subprocess.check_output(["git","-C","/repo","log","--format=%h|%s","--reverse"],text=True).split("\n")
out=[]; missing=[]
for l in log:
    if not l or "fix: " not in l: continue
    h,s=l.split("|",1); h=h[:7]
    if h not in P: missing.append(l); continue
    out.append("fixed: property=%s %s failed before: %s" % (P[h], h, s[5:]))
print(missing)
f="/verif/known_findings.json"; k=json.load(open(f)); k["fixed"]=out; json.dump(k,open(f,"w"),indent=1); print(len(out), list(k))
