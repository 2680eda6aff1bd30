import json,sys
# claim.py ID technique note
p='/verif/tools/claims.json';c=json.load(open(p))
c['checks'][sys.argv[1]]={"technique":"static analysis: "+sys.argv[2],"note":sys.argv[3]}
c['not_applicable'].pop(sys.argv[1],None)
c['checks']=dict(sorted(c['checks'].items()))
json.dump(c,open(p,'w'),indent=1)
