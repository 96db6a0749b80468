#!/bin/bash
# Writes harness/internal/verifh/dict.go: a snapshot of the published dictionaries. Terms
# with a punctuation token other than a leading one in any of their spellings are left out (see C25).
set -e
d=$(mktemp -d)
cat > $d/zz_test.go <<'G'
package stackoverflow
import ("testing";"strings";"fmt";"os";"github.com/clipperhouse/jargon";"sort")
func TestZZ(t *testing.T){
 type e struct{p,v string}
 var all []e
 for k,v:=range mappings{ for _,p:=range strings.Split(k,","){all=append(all,e{strings.TrimLeft(p," "),v})}}
 sort.Slice(all,func(i,j int)bool{return all[i].p<all[j].p})
 f,_:=os.Create(os.Getenv("OUT"))
 for _,x:=range all{
  skip:=false
  n:=strings.Count(x.p," ")
  for m:=0;m<1<<n;m++{
   q,j:="",0
   for _,r:=range x.p{ if r==' '{ j++; if m>>(j-1)&1==1{continue}}; q+=string(r)}
   ts,_:=jargon.TokenizeString(q).ToSlice()
   for k,tok:=range ts{ if k==0{continue}; if tok.IsPunct()&&!tok.IsSpace(){skip=true}}
  }
  if skip {fmt.Println("left out:",x.p);continue}
  fmt.Fprintf(f,"\t{%q, %q},\n",x.p,x.v)
 }
 f.Close()
}
G
sed 's/package stackoverflow/package nba/' $d/zz_test.go > $d/nba_test.go
echo '{"Replace":{"/repo/filters/stackoverflow/zz_test.go":"'$d'/zz_test.go","/repo/filters/nba/zz_test.go":"'$d'/nba_test.go"}}' > $d/ov.json
cd /repo
OUT=$d/a go test -count=1 -overlay $d/ov.json -run ZZ ./filters/stackoverflow -v | grep left | tee $d/la >&2
OUT=$d/b go test -count=1 -overlay $d/ov.json -run ZZ ./filters/nba -v | grep left | tee $d/lb >&2
{ echo '// Generated by tools/mkdict.sh: the published dictionaries. DO NOT EDIT.'
echo 'package main'; echo
echo 'type dictEntry struct{ term, canonical string }'; echo
echo 'var dictTags = []dictEntry{'; cat $d/a; echo '}'; echo
echo 'var dictPlayers = []dictEntry{'; cat $d/b; echo '}'; } > /verif/harness/internal/verifh/dict.go
wc -l $d/a $d/b $d/la $d/lb >&2
rm -r $d
