keys="type name namespace doc fields aliases symbols default size items values logicalType precision scale order request response errors one-way protocol types messages".split()
out="//! generated by tools/keys.py: pairwise distinctness of the attribute names\nuse vstd::prelude::*;\nverus! {\npub proof fn lemma_keys()\n    ensures\n"
pairs=[]
for i,a in enumerate(keys):
    for b in keys[i+1:]:
        out+=f'        "{a}"@ != "{b}"@,\n'
        if len(a)==len(b):
            k=next(j for j in range(len(a)) if a[j]!=b[j]); pairs.append((a,b,k))
out+="{\n"
for a in keys: out+=f'    reveal_strlit("{a}"); assert("{a}"@.len() == {len(a)});\n'
for a,b,k in pairs: out+=f'    assert("{a}"@[{k}] != "{b}"@[{k}]);\n'
out+="}\n"
prims="null boolean int long float double bytes string".split()
out+="""pub proof fn lemma_prim_words()
    ensures
"""
for a in prims: out+=f'        !"{a}"@.contains(\'.\'),\n'
out+="{\n"
for a in prims: out+=f'    reveal_strlit("{a}");\n'
out+="}\n}\n"
open('/verif/specs/keys.rs','w').write(out)
