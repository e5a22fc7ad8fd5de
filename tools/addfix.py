import json,subprocess,sys
h=subprocess.check_output(["git","-C","/repo","rev-parse","--short",sys.argv[3] if len(sys.argv) > 3 else "HEAD"],text=True).strip()
p="/verif/known-findings.json"; s=open(p).read()
s=s.rstrip().rstrip("}").rstrip().rstrip("]").rstrip()
s+=',\n {"property": "%s", "status": "fixed", "what": "fixed: property=%s %s %s"}\n]}\n'%(sys.argv[1],sys.argv[1],h,sys.argv[2])
json.loads(s); open(p,"w").write(s)
