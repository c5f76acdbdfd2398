import json
LV=json.load(open("/verif/lib/levels.json"))
NA={"P19":"The guarantee is a floating-point backward-error bound for faer's factorisations and this repository's iterative wrappers: rounding-error analysis of unbounded loops over IEEE doubles is outside what Verus or Kani contracts can state and discharge here, and the factorisation code itself is in a dependency.",
"P20":"Accuracy of rustfft (a dependency) for every length is a floating-point error bound that no contract within reach can express or decide; the wrapper's element movement alone would not decide the property.",
"P21":"The oracle is Python's Unicode str methods over unbounded strings; the code works on Rust String/char iterators that neither Verus nor Kani can decide against that oracle without bounds."}
checks=[]
for i in range(1,19):
    p="P%02d"%i; l=LV.get(p,{"level":"other","note":"bounded stand-in only","technique":"contract verification"})
    checks.append({"property":p,"quick_cmd":"python3 check.py "+p,"thorough_cmd":"VERIF_TIER=thorough python3 check.py %s thorough"%p,
      "technique":l["technique"],"level":l["level"],"level_note":l["note"]})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,
 "not_applicable":[{"property":p,"reason":r} for p,r in NA.items()],
 "notes":"No hooks in /repo: functions are extracted mechanically from /repo's working tree on every run (Verus) or compiled in place by path (Kani). See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
