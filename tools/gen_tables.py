#!/usr/bin/env python3
"""Writes harness/src/oracle/tables.rs from the tables of Go's x/net hpack
(used once, when the harness was written: the oracle's tables do not come from
the code under test)."""
import re,sys,os
d=sys.argv[1]
t=open(os.path.join(d,'tables.go')).read()
codes=[int(x,16) for x in re.findall(r'0x[0-9a-f]+',re.search(r'huffmanCodes = \[256\]uint32\{(.*?)\n\}',t,re.S).group(1))]
lens=[int(x) for x in re.findall(r'\d+',re.search(r'huffmanCodeLen = \[256\]uint8\{(.*?)\n\}',t,re.S).group(1))]
assert len(codes)==256 and len(lens)==256
codes.append(0x3fffffff); lens.append(30)
assert sum(2**(30-l) for l in lens)==2**30
s=open(os.path.join(d,'static_table.go')).read()
ents=re.findall(r'\{Name: "([^"]*)", Value: "([^"]*)"',s)
assert len(ents)==61,len(ents)
out=['//! RFC 7541 appendix A and B. Generated by tools/gen_tables.py.\n','/// (code, length in bits); entry 256 is EOS.','pub const CODES: [(u32, u8); 257] = [']
for c,l in zip(codes,lens): out.append('    (0x%x, %d),'%(c,l))
out+=['];\n','/// The static table; entry `i` has index `i + 1`.','pub const STATIC: [(&str, &str); 61] = [']
for n,v in ents: out.append('    ("%s", "%s"),'%(n,v))
out.append('];')
open(os.path.join(os.path.dirname(__file__),'../harness/src/oracle/tables.rs'),'w').write('\n'.join(out)+'\n')
