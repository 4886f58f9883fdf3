# record_fix.py PROPERTY 'what failed' [commit]: note a repaired defect in known_findings.json
import json,subprocess,sys
p,w=sys.argv[1:3]
c=sys.argv[3] if len(sys.argv)>3 else 'HEAD'
c=subprocess.check_output(['git','-C','/repo','rev-parse','--short',c],text=True).strip()
f='/verif/known_findings.json'; d=json.load(open(f))
d['findings'].append({"property":p,"status":"fixed","id":"fixed-"+c,"what":"fixed: property=%s %s %s"%(p,c,w)})
json.dump(d,open(f,'w'),indent=1); open(f,'a').write('\n')
