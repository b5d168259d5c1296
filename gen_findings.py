import subprocess
EXTRA={"do not use a handler from several threads at the same time":[("C21","a handler which is not Sync was cloned by several threads at the same time through `unsafe impl Send for Router` (two requests on connections which the executor runs on different threads)")],
"discard pooled connections which were closed or received unexpected data":[("C11","a pooled connection on which bytes had arrived after the head of the last response beyond its announced length (e.g. a second response) was reused: the next call got those bytes as its response")],
"do not treat binary header values as UTF-8 texts":[("C03","byte strings in header fields were converted through an unchecked UTF-8 string (undefined behaviour) or could not be decoded")]}
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s'],text=True).splitlines()
m={
"44f8b42":[("C01","the boolean `true` was sent as \"ture\" in paths, queries and headers and refused by the receiver"),("C02","same in queries"),("C03","same in headers")],
"7828515":[("C01","non-ASCII path arguments arrived as mojibake (bytes decoded as Latin-1)")],
"57b1bd1":[("C18","a query parameter the procedure does not declare made the request fail (500/400)")],
"41ed5ca":[("C02","a request with a query but without path arguments could not be sent")],
"b18d056":[("C01","path arguments \"\", \".\", \"..\" and ones with tabs or line breaks were dropped or altered on the way")],
"2d16d09":[("C01","unit path arguments were not accepted")],
"1fe51eb":[("C07","a request target without path segments (e.g. `GET mailto:x`) made the server panic")],
"cbc6373":[("C06","a path beginning with // lost its first segment as the authority"),("C07","same, by hostile targets")],
"d88facb":[("C06","an entry point with a variable was hidden by one with a constant in the same position")],
"d4e0310":[("C06","the empty entry point could not be reached"),("C01","same")],
"5fa4155":[("C06","constant segments were compared without percent-decoding"),("C01","same, for constants which need encoding")],
"2ca5f90":[("C03","header values with line breaks injected headers and messages")],
"49b3129":[("C18","headers sent to a message type without headers made it fail"),("C04","same, in responses")],
"18b4ad3":[("C03","header names were matched case-sensitively")],
"0175468":[("C05","a body cut off by the end of the stream was handed over as complete"),("C08","the unread rest of a body was taken for the next request")],
"8d5eafb":[("C05","the end of chunked bodies was left in the stream"),("C08","and was taken for the next request")],
"d9a7174":[("C07","messages with both Content-Length and Transfer-Encoding, or several different lengths, were accepted"),("C08","same: request smuggling")],
"31cf48e":[("C15","ProblemResponse::set_problem left the old status in the status line")],
"43aeeda":[("C09","a connection which failed while being accepted ended the server")],
"021f4a0":[("C08","pipelined requests which were read together with their predecessor were lost")],
"d5f308b":[("C07","Content-Length: +5 was accepted")],
"9745ae9":[("C10","a 204 or 304 response without length kept the call waiting until the connection was closed")],
"14bc43a":[("C11","a connection with an unread or surplus part of a response was used for the next call")],
"8e5d304":[("C15","a top-level ProblemResponse could not be decoded by callers (optional status)"),("C04","same for response types with an optional status")],
"4324655":[("C04","a response whose status field is a newtype of an integer could not be decoded by callers")],
"4562f12":[("C01","a call of a procedure without path arguments panicked if its entry point could not be represented as a path (e.g. the constant \".\")")],
"cd161d8":[("C12","idle connections of different IPv6 scopes were mixed up")],
"31f9098":[("C13","a very long suspension made the pool panic")],
"cb49bdc":[("C19","a head larger than the buffer (8096 bytes) was sent truncated, followed by the body: the call waited forever, or the body was taken for headers and further requests by a peer with a larger limit")],
"600053d":[("C14","a very long connect timeout made the pool panic")],
}
out=["# Findings of the checks on the original tree (base commit 5201afe).",
"# 'fixed:' lines suppress nothing. 'finding:' lines are tab-separated and suppress only the exact case they name."]
for l in log:
    h,s=l.split('\t',1)
    if s.startswith('fix:'):
        for p,w in m.get(h,[]): out.append("fixed: property=%s %s %s"%(p,h,w))
        if h not in m:
            if 'MessagePack' in s: out.append("fixed: property=C16 %s bytes after the MessagePack value of a field were ignored"%h)
            elif s[5:] in EXTRA:
                for p,w in EXTRA[s[5:]]: out.append("fixed: property=%s %s %s"%(p,h,w))
            else: raise SystemExit("no text for "+l)
for f in ["9007199254740991.0","6.934698245112694e276","8.383658838626809e-78","-7.803913958627244e173","-2.693554001703998e265","-6.801672438380202e47"]:
    out.append("finding: property=C16\tfamily=JSON floats with many digits\tcase=f64: %s\tmessage=Json at First: Got(f64: \twhat=a field with the JSON adapter receives a neighbouring f64 instead of %s: serde_json parses floats inexactly unless its feature float_roundtrip is on, which only a change of dependencies could do"%(f,f))
open('/verif/known-findings.txt','w').write("\n".join(out)+"\n")
