#!/usr/bin/env python3
"""writes known_findings.txt from the fix: commits of /repo (run by hand after a fix commit)"""
import subprocess
m={'must ignore arcs with weight inf':'C01','pin_targets/pin_sources':'C03','padding bytes':'C05','failed writes':'C31','load_bit_vector':'C31','perfect witness':'C11','Dijkstra::reset':'C12','copying a CCH':'C12','default constructed CCH':'C12','parallel CCH':'C09','nested dissection':'C13','multiple of 512':'C17','empty BitVector':'C17','self-move':'C19','possibly_invalid':'C19','convert_arc_path':'C20','geo_dist':'C22','nearest neighbor tree':'C22','FileDataSource::size':'C23','source failure':'C23','move assigning':'C23','varints':'C24','misaligned':'C24','TagMap':'C33','sparse OSM':'C25','coordinate offsets':'C25','ordered OSM':'C26','string ID bounds':'C26','zlib':'C26','header features':'C26','uncompressed OSM':'C25','via node':'C28','32 bit overflow':'C30','failed reads':'C31','CCH query reset':'C12','relation member lists':'C26','CCH with logging':'C35','without logger':'C35','CH validity check':'C36','CH with logging':'C35','tag maps with more':'C33','size of contraction hierarchy files':'C05','not a permutation':'C05','inertial flow balance':'C14','Dijkstra distances overflowed':'C15','shortcut weights overflowed':'C01','badly ordered CCHs':'C07','badly ordered CHs':'C02','tool:':'C32'}
KNOWN=[]   # lines "known: property=<id> match=<<...>> ..." are added here
out=["# Findings of the checks on RoutingKit.",
"# known: property=<id> match=<<substring of the report>> <description>   -- suppresses exactly that report (none at present)",
"# fixed: property=<id> <commit in /repo> <what failed>                    -- informational, suppresses nothing"]+KNOWN
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines():
    if 'fix:' not in l: continue
    h,s=l.split(' ',1); s=s[5:]
    k={v for a,v in m.items() if a in s}
    assert len(k)==1,(l,k)
    out.append("fixed: property=%s %s %s"%(k.pop(),h,s))
open('known_findings.txt','w').write('\n'.join(out)+'\n')
