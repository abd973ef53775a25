"""tools/top.py ID [N] [WIDTH]: the violations of the last run, shortened"""
import glob, json, sys
n = int(sys.argv[2]) if len(sys.argv) > 2 else 15
w = int(sys.argv[3]) if len(sys.argv) > 3 else 170
for f in sorted(glob.glob(f"out/{sys.argv[1]}/*.json"))[:n]:
    d = json.load(open(f))
    p = d["problems"][0]
    if p[0] == "crash": p[1] = p[1][-w:]
    print(d["case"]["key"][:90], "|", d["problems"][0][0], "|", " ".join(d["problems"][0][1].split())[:w])
