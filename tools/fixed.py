"""Keeps known_findings.json's "fixed" list in step with the fix: commits of /repo."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {"644ae06":"C04","ca07928":"C03","b88206a":"C03","ed84df4":"C01","9553191":"C01","a489835":"C01","f1de510":"C03","a263641":"C01","1902181":"C11","ebdab5d":"C19","6ba5435":"C25","27a251a":"C25","ba0439d":"C11","5b16a3e":"C16","051554e":"C16","7ce6023":"C16","0cc0f5a":"C21","0b58cd2":"C10","4d2d788":"C20","388e4d6":"C01","d7eaee5":"C14","a850af9":"C05","9f9e1ed":"C14","17f497e":"C09","8f7e456":"C08","d7b6908":"C05","047cafd":"C08","bfe8c86":"C08","72e7079":"C15","0952fc6":"C14","11a4dae":"C03","fad046d":"C01","89a70bc":"C01","9c20bd4":"C14","f8e777e":"C07","fddc15c":"C03"}
EXTRA = os.path.join(HERE, "tools", "fixed_extra.json")
if os.path.exists(EXTRA):
    PROP.update(json.load(open(EXTRA)))
log = subprocess.run(["git","-C","/repo","log","--format=%h %s","--reverse"],capture_output=True,text=True).stdout
p = os.path.join(HERE,"known_findings.json")
k = json.load(open(p))
k["fixed"] = []
for line in log.splitlines():
    h, s = line.split(" ",1)
    if s.startswith("fix:"):
        k["fixed"].append(f"fixed: property={PROP.get(h[:7],'C01')} {h} {s[5:]}")
        if h[:7] not in PROP: print("no property for", line)
json.dump(k, open(p,"w"), indent=1); open(p,"a").write("\n")
