#!/usr/bin/env python3
"""One-off audit: compares mc/src/rfc.rs with Go's hpack tables and with the RFC text bundled in
/repo/huffman/assets (columns re-read here, not through the parser under test)."""
import re,os
here=os.path.dirname(os.path.abspath(__file__))
r=open(os.path.join(here,'../mc/src/rfc.rs')).read()
st=re.findall(r'^    \("([^"]*)", "([^"]*)"\),$',r,re.M)
hf=[(int(a,16),int(b)) for a,b in re.findall(r'\(0x([0-9a-f]+), (\d+)\)',r)]
F='/root/go/pkg/mod/golang.org/x/net@v0.61.0/http2/hpack/'
s=open(F+'static_table.go').read()
assert st==re.findall(r'\{Name: "([^"]*)", Value: "([^"]*)", Sensitive: false\}',s)
t=open('/repo/huffman/assets/hpack-huffman.txt').read().splitlines()
assert len(t)==257
for i,l in enumerate(t):
    bits=re.search(r'\|[01|]+',l[11:]).group().replace('|','')
    assert (int(bits,2),len(bits))==hf[i],(i,l)
assert sum(2.0**-n for _,n in hf)==1.0
print('ok')
