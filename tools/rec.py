import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
l = d if isinstance(d,list) else d['findings']
prop,commit,what=sys.argv[1:4]
l.append({"property":prop,"tag":"","status":"fixed","what":f"fixed: property={prop} {commit} {what}"})
json.dump(d,open(p,'w'),indent=1,ensure_ascii=False); open(p,'a').write("\n")
