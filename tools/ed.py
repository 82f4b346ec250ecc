# ed.py file old new [count]
import sys
p,a,b=sys.argv[1:4]
s=open(p).read()
n=s.count(a)
assert n==1 or len(sys.argv)>4,(p,n)
open(p,'w').write(s.replace(a,b,int(sys.argv[4]) if len(sys.argv)>4 else 1))
