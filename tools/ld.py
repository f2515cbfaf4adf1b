import sys
N=sys.argv[1]; L=sys.argv[2] if len(sys.argv)>2 else ''
src=open('/tmp/loopdump.py').read().replace('NAME',repr(N)).replace("for l,o in a.outs.items():","for l,o in a.outs.items():\n        if L not in l: continue")
exec(src)
