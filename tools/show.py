import sys,json,glob
sid,line=sys.argv[1],int(sys.argv[2]); n=int(sys.argv[3]) if len(sys.argv)>3 else 3
for f in glob.glob('/tmp/keep/t*.ndjson'):
    for l in open(f):
        if l.startswith('{"id":"%s"'%sid):
            t=json.loads(l)
            for i in range(max(0,line-n),line): print(i+1,json.dumps(t['ops'][i])[:1800])
