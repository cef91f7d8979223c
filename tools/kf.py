import subprocess,json
M='''e95b311 C06
172777e C12
f37c924 C06
7a79894 C06
e14ef54 C06
74f98ae C06
b2bf1b3 C06
833d2ee C09
cf6f0d3 C19
b111373 C19
5c494a6 C19
23432cd C19
4fed922 C19
12d5521 C19
4d56401 C11
0790468 C21
ab0f6fe C14
6d7d6be C15
ff4bdb4 C12
7ece0ab C11
27d33b5 C11
5b6178f C28
3e4ff6d C28
70e197c C28
b604294 C28
75c5b5f C28
4e88380 C18
66dfd9e C30
3be1a9b C30
33ac133 C18
9fa9476 C25
2c172cc C25
53616f0 C26
6f4628f C26
87c8b65 C21
089b5d3 C18
d463e5a C06
c2ad7fc C28
a06a62d C07
b1e58fe C01
dcb1dbb C03
01e02ee C27
70244b5 C30
181e505 C30
5e08f88 C30
6e8be21 C30
6546b79 C20
f513258 C32
f4cc4e5 C31
9fc1d9e C31
59c6bd7 C16
b7b69d8 C16
58c35ef C16
e5b5773 C17
b487eb4 C17
aedad18 C10
a6671a8 C24
3ccc87c C33
f0dc3c9 C05
8ab6b0c C30
dcc0149 C33
75bf21a C34
6646245 C34
dc8cab6 C34
9fb81fc C36
358bf96 C36
a962e21 C36'''
d=json.load(open('/verif/known_findings.json'))
out=[]
for l in M.split('\n'):
    c,p=l.split()
    s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%s',c],text=True).strip()
    assert s.startswith('fix:'),s
    out.append('fixed: property=%s %s %s'%(p,c,s[5:]))
d['fixed']=out
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
n=subprocess.check_output("git -C /repo log --format=%h | head -60",shell=True,text=True).split()
h=[x.split()[0] for x in M.split('\n')]
for x in n:
    s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%s',x],text=True).strip()
    if s.startswith('fix:') and x[:7] not in h: print('missing',x,s)
