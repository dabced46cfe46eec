# Prints the table of planted bugs for DESIGN.md.
import json, os, re
d = "/verif/seeded"
print("| bug | file | needs | caught by |\n|---|---|---|---|")
for i in sorted(os.listdir(d)):
    m = json.load(open(f"{d}/{i}/meta.json"))
    fs = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(f"{d}/{i}/patch.diff").read(), re.M)))
    print(f"| {i} | {', '.join(fs)} | {m['needs']} | {m['property']} |")
