#!/usr/bin/env python3
# Reads Lucene's ASCIIFoldingFilter.java and writes the table as Go. Run once: the result is committed, so that a
# change to the copy in /repo does not move the oracle.
import re,sys
src=open('/repo/filters/ascii/ASCIIFoldingFilter.java').read()
body=src[src.index('switch(c)'):] if 'switch(c)' in src else src[src.index('switch (c)'):]
table={}
pend=[];out=''
for line in body.split('\n'):
    line=re.sub(r'//.*','',line).strip()
    m=re.match(r"case '\\u([0-9A-Fa-f]{4})':",line)
    if m: pend.append(int(m.group(1),16)); continue
    m=re.match(r"output\[outputPos\+\+\] = '(\\?.)';",line)
    if m: out+=m.group(1)[-1]; continue
    if line.startswith('break'):
        for r in pend:
            assert r not in table,hex(r)
            assert out
            table[r]=out
        pend=[];out=''
    if line.startswith('default'): break
print(len(table),file=sys.stderr)
# runs of consecutive characters with the same replacement
print('package main\n\n// Lucene\'s ASCIIFoldingFilter table, in order of character. Written by tools/mklucene.py.\nvar luceneChars = []rune{')
ks=sorted(table)
for i in range(0,len(ks),12): print('\t'+', '.join('0x%04x'%k for k in ks[i:i+12])+',')
print('}\n\nvar luceneFolds = []string{')
import json
for i in range(0,len(ks),16): print('\t'+', '.join(json.dumps(table[k]) for k in ks[i:i+16])+',')
print('}')
