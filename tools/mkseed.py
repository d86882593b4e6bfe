#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each spec defines id, prop, needs, breaks, edits=[(file, old, new)], deps (list of crates), main (rust source).
Writes /verif/seeded/<id>/ (patch made in the scratch worktree /tmp/mk of /repo's HEAD)."""
import sys, os, subprocess, json, stat
W="/tmp/mk"
def sh(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
if not os.path.isdir(W): sh("git","clone","-q","/repo",W)
sh("git","-C",W,"fetch","-q","/repo","HEAD"); 
for f in sys.argv[1:]:
    sh("git","-C",W,"checkout","-q","-f","FETCH_HEAD")
    g={}; exec(open(f).read(), g)
    for (p,o,n) in g["edits"]:
        s=open(f"{W}/{p}").read()
        assert s.count(o)==1, (f,p,s.count(o),o)
        open(f"{W}/{p}","w").write(s.replace(o,n))
    d=f"/verif/seeded/{g['id']}"; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w").write(sh("git","-C",W,"diff"))
    t=open("/verif/tools/seedtpl/demo.sh").read()
    deps={"gp":'egobox-gp = { path = "$repo/crates/gp", features = ["persistent"] }',"moe":'egobox-moe = { path = "$repo/crates/moe", features = ["persistent"] }',
      "ego":'egobox-ego = { path = "$repo/crates/ego", features = ["persistent"] }',"argmin":'argmin = { version = "0.11.0", features = ["serde1", "ctrlc"] }',
      "rayon":'rayon = "1"', "ndarray-npy":'ndarray-npy = "0.9"',"serde_json":'serde_json = "1"','bincode':'bincode = { version = "2", features = ["serde"] }'}
    t=t.replace("DEPS\n","".join(deps[x]+"\n" for x in g.get("deps",[])))
    open(d+"/demo.sh","w").write(t); os.chmod(d+"/demo.sh",0o755)
    open(d+"/main.rs","w").write(g["main"])
    json.dump({"property":g["prop"],"needs":g["needs"],"what_it_breaks":g["breaks"]}, open(d+"/meta.json","w"), indent=1)
    print(g["id"])
