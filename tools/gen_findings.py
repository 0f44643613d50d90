import subprocess
log=subprocess.run("git -C /repo log --format='%h %s' --reverse 50eaafb..HEAD",shell=True,capture_output=True,text=True).stdout.split('\n')
M={'52babfc':'C04','9ad1438':'C02','c9c1959':'C01','5a4314c':'C01 C02 C03','e2b4257':'C01','b3770b1':'C01','f62c95a':'C01 C02 C03','bc5a38f':'C01 C03','f7374fc':'C06','fda697b':'C07','f0a9dc8':'C11','e5e4269':'C13','5a70bbd':'C12','c285da9':'C15','ece8fec':'C15','6bafdf3':'C15','5ca10d3':'C14','e3f6108':'C14','53801d7':'C14','f5f520c':'C17','b17891c':'C17','a1c003b':'C17','6e74fcf':'C17','65db986':'C16','ee6b46c':'C16','d5d4956':'C16','d5f235d':'C20','d6f8a7e':'C21','9dc477b':'C22','8035be5':'C22','43c803c':'C22','3a886a5':'C22','e59fa41':'C29','6313457':'C26','ed9a644':'C28','f959bcb':'C22','2b57040':'C25','f4b7f86':'C25','a48ac0d':'C01'}
out=['# Genuine defects of xigt/xigt.  "known:" entries are recorded, not repaired;','# "fixed:" entries were repaired by the named commit and suppress nothing.','']
K=[('C01','xigt.mixins.XigtContainerMixin.__imul__','`tier *= 2` (inherited from list) repeats the members without checking their ids, and the id index then knows only one of each'),
('C01','xigt.mixins.XigtContainerMixin.extend','t.extend(t) on a container whose members have no ids never ends (it appends to what it iterates over)'),
('C07','xigt.model.Igt.refresh_indices','the cached referrers list an object twice if its reference expression names the id twice (m1[0:1]+m1[2:3]), and leave out objects without an id; ref.referrers does neither'),
('C09','xigt.model.Item.value','items whose content expressions refer to each other cyclically end in RecursionError and not in a structure error'),
('C15','xigt.xigtpath._find_attr','@p:* selects nothing: it looks for an attribute called *'),
('C16','xigt.codecs.xigtxml.default_encode_metachild','a namespace that no enclosing object gives a prefix is not written, so it is lost on reading'),
('C21','xigt.scripts.xigt_partition.run','two input files with IGTs of the same id cannot be partitioned (duplicate id in the output corpus), and keys with a path separator give a file name in a directory that does not exist'),
('C23','xigt.scripts.xigt_query.run','--unique and --tally on a query that selects objects (not values) raise TypeError, because model objects are not hashable'),
]
for p,s,t in K: out.append('known: property=%s site=%s %s'%(p,s,t))
out.append('')
for l in log:
    if not l: continue
    h,_,m=l.partition(' ')
    for p in M[h].split(): out.append('fixed: property=%s %s %s'%(p,h,m[5:]))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
