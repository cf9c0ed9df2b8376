import json,re,os
D=open('/verif/DESIGN.md').read()
RULES='''| rule | what it decides on every run |
|---|---|
| C11 clashing steps | in the merge of tables at one place, every pair of changes that meet is either kept or provably the undoing of one another; a merge that drops one is reported (known finding: "meeting 1, not undone") |
| C12 artificial edges | in each graph trait of the cleaned body, an edge whose source terminator is a false edge or false unwind to an imaginary target must be filtered (two known findings) |
| C17 names | for every type that one process serialises and another deserialises, the set of names written equals the set read, read from the `Serialize`/`Deserialize` MIR of both |
| C17 flags | every flag the preprocessor and the server pass to the plugin is declared by the plugin's argument parser |
| C17 entry | `main` of both plugin programs reaches the plugin library's entry on every path that ends normally |
| C21 cache key | the hash of a block, on which the cache keys its entries, takes in every field of the block except the marks drawn by the front end |
| C22, C23 entry | `main` of the preprocessor and of the server reaches the preprocessor run and the router, on every path that ends normally |
| C25 | the whole front end is type-checked (the TypeScript compiler, strict) against types generated from the Rust serialisation; embed attributes written by the preprocessor against those the front end reads; the server's responses against the editor's reader |

A rule reports the construct (function, file, line) it found and covers code no reference mentions. Rules were tested by
the same mutation and benign sets as the summaries.'''
k=json.load(open('known_findings.json'))
X=["Repaired (one `fix:` commit each; the check reports the violation if it returns):","","| property | commit | what failed |","|---|---|---|"]
for x in k['fixed']:
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',x); X.append('| %s | %s | %s |'%(m[1],m[2],m[3].replace('|','\\|')))
X+=["","Recorded, not repaired (`known_findings.json`):",""]
for f in k['findings']: X.append(f"* **{f['property']}** ({f['key']}): {f['what']}")
X+=["","Seen and left alone because they are outside every claimed statement: `if let Some(ref mut m) = n.next` and",
"`if let (Some(s), n) = x` show an expected read-and-drop of the scrutinee; assignment to a field through a dereferenced smart pointer",
"has no boundary (documented in the source); `?` together with an early return can end in a reported analysis error",
"(\"no open collection dominates root location\"); match guards are reported as unsupported."]
S=["Each is in `seeded/<id>`, was made from the property text, compiles, passes the stable tests and has a demonstration.","","| bug | caught by | what it breaks |","|---|---|---|"]
for d in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{d}/meta.json')); S.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
S+=["","All are caught by the check of their own property (exit 1, the function, line and facet named). A few candidates were dropped because",
"the stable tests already fail with them (an exit left out of post-dominance, reborrow demand, copyable moves, an arm guard)."]
import sys
def sub(tag,body):
    global D
    b,e=f'<!-- {tag} -->',f'<!-- /{tag} -->'
    if f'@@{tag}@@' in D: D=D.replace(f'@@{tag}@@',b+'\n'+body+'\n'+e)
    else: D=D[:D.index(b)]+b+'\n'+body+'\n'+D[D.index(e):]
sub('RULES',RULES); sub('DEFECTS','\n'.join(X)); sub('SEEDED','\n'.join(S))
open('/verif/DESIGN.md','w').write(D)
