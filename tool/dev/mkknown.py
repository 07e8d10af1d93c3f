"""Write known_findings.json (run by hand; a check never writes it)."""
import json, subprocess, os
PROP = {  # commit -> property
"bfea0ce":"P01","e8f140f":"P01","ea5035e":"P11","35f8e3a":"P11","45a8231":"P02","1336b02":"P02","69077c5":"P03",
"ca1f8a9":"P06","04865ec":"P06","0260c14":"P08","374fcbe":"P10","42b1a93":"P08","bdae073":"P19","f891f63":"P10",
"b891f63":"P10","ac6e300":"P16","3b5782b":"P16","9b0df98":"P16","1f4c8b6":"P16","be935ae":"P16","3e60101":"P04",
"e74661c":"P04","d2c0286":"P04","10c57dc":"P19","f357bad":"P22","567fc94":"P19","b3d3699":"P21","64b31ec":"P13",
"4008d50":"P08","ca6c4f7":"P08","3ac02ee":"P19","7aafc99":"P12","3772918":"P19","393c390":"P19","8d3592f":"P05",
"3912fc1":"P12","77a9ac6":"P21","033b211":"P21","fbacd96":"P22","64a4f01":"P22","9e03d2b":"P22","367a3f8":"P18",
"0646586":"P10","3d197bc":"P17","b2edd83":"P17","19ab3a1":"P19","b61d56f":"P19","ca37181":"P15","88c3531":"P17","7d95665":"P08","aa39270":"P06","d63d33b":"P10","a110b4c":"P10","0d934da":"P08","4081d88":"P22","ce5f8b0":"P22","018aa73":"P22","144262f":"P22"}
out = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
fixed=[]
for l in out.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    fixed.append("fixed: property=%s %s %s"%(PROP[h],h,s[4:].strip()))
F=[{"property":"P10","instance":"owner-copyable|PsimagLite::InputNg::Readable",
 "what":"copying an InputNg<>::Readable in Ainur mode makes two objects that delete the same ainur_ (InputNg.h, class Readable, ~Readable)"}]
json.dump({"findings":F,"fixed":fixed},open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../../known_findings.json"),"w"),indent=1)
print(len(fixed))
