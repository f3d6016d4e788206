#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS: the committed list of genuine defects (run by hand, never by a check)."""
import subprocess
STR={3,8,18,21,26,28,31}; BIN={9,22}; PAIR={38}
ALLOWED={'CONNECT':[17,33,39,34,25,23,38,21,22],'WILL':[24,1,2,3,8,9,38],
 'CONNACK':[17,33,36,37,39,18,34,31,38,40,41,42,19,26,28,21,22],'PUBLISH':[1,2,35,8,9,38,11,3],
 'PUBACK':[31,38],'PUBREC':[31,38],'PUBREL':[31,38],'PUBCOMP':[31,38],'SUBACK':[31,38],'UNSUBACK':[31,38],
 'SUBSCRIBE':[11,38],'UNSUBSCRIBE':[38],'DISCONNECT':[17,31,38,28]}
DIRECT={'CONNECT':['client id','will topic','will message','user name','password'],'PUBLISH':['topic'],'SUBSCRIBE':['filter'],'UNSUBSCRIBE':['filter']}
out=["# Genuine defects of the library. Read by the checks, never written by them.",
"#",
"# finding: property=<id> | <signature> | <what fails>      recorded, not repaired: reported as KNOWN-FINDING",
"# fixed: property=<id> <commit> <what failed>              repaired in /repo: suppresses nothing",
"",
"# --- E04: strings and binary fields above 65535 bytes are accepted and their length truncated to 16 bits."
,"# Not repaired: write_mqtt_bytes/write_mqtt_string cannot fail, so refusing means changing their signature,",
"# every writer that calls them and a check of every field before the first byte is written, in all packets."]
def add(v,p,f):
    w=f"{v} {p} {f} above 65535 bytes"
    out.append(f"finding: property=E04 | accepted: {w} | a {w} is not refused; its length field is truncated to 16 bits")
for p,fs in DIRECT.items():
    for f in fs: add('V4',p,f)
for p,fs in DIRECT.items():
    for f in fs: add('V5',p,f)
for p,ids in ALLOWED.items():
    if p=='WILL':
        name,pre='CONNECT','will property'
    else: name,pre=p,'property'
    for i in ids:
        if i in STR or i in BIN: add('V5',name,f"{pre} {i}")
        if i in PAIR:
            add('V5',name,f"key of {pre} {i}"); add('V5',name,f"value of {pre} {i}")
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--grep=^fix:'],capture_output=True,text=True).stdout
C={}
for l in log.splitlines():
    h,s=l.split(' ',1); C[s]=h
def fx(props,start,what):
    h=[v for k,v in C.items() if k.startswith('fix: '+start)]
    assert len(h)==1,start
    for p in props.split(): out.append(f"fixed: property={p} {h[0]} {what}")
out+=["","# --- repaired"]
fx('E01 E02 E03 C01','CONNECT encoding',"Connect::write of both versions overwrote a byte at a fixed index of the output buffer with the connect flags when the buffer already held bytes, left its own flags wrong, and returned a length without the fixed header")
fx('E02 H03 I01 I02','count the subscription',"v5 PUBLISH and SUBSCRIBE counted the subscription identifier's id byte twice, so the rest of the property section was read as payload or filters")
fx('S02 S01 H03','a complete v5 frame',"a complete v5 frame whose property length or subscription identifier is cut off was answered with InsufficientBytes after the frame had been consumed")
fx('E02 I02 H04','v5 CONNACK without',"a v5 CONNACK without properties was encoded without the mandatory property length and could not be decoded")
fx('E02 I01 S05 E03 H04','v5 DISCONNECT',"v5 DISCONNECT with remaining length 0 or 1 was refused, and one with an empty property set lost its reason code when encoded")
fx('H01','match topics that',"matches() panicked on a topic whose first character is longer than one byte")
fx('H01',"don't print","reading a v5 UNSUBSCRIBE printed its packet id to stderr and panicked when stderr could not be written")
fx('H03','keep v5 properties',"the last property of a v5 property section could reach past the section into the fields behind it")
fx('V01','a v5::Connect for',"a v5::Connect with Protocol::V4 was encoded with MQTT 5 property lengths, and a level 4 CONNECT with a will was decoded as if it had will properties")
fx('E04','a packet that is',"refused encodes (packet id zero, frame or subscription identifier above 268435455) left part of the packet in the output buffer")
fx('H03','refuse SUBSCRIBE',"SUBSCRIBE (MQTT 5) and UNSUBSCRIBE (both versions) packets without any filter were accepted")
fx('T02',"'+' is only","valid_filter() accepted '+' as part of a level")
open('KNOWN_FINDINGS','w').write("\n".join(out)+"\n")
