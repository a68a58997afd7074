import sys,json
s=open('/verif/known_findings.json').read(); i=s.rindex('"\n ]'); s=s[:i]+'",\n  '+json.dumps(sys.argv[1])+'\n ]\n}\n'; json.loads(s); open('/verif/known_findings.json','w').write(s)
