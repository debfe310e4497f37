#!/usr/bin/env python3
"""Breaks the specification's models on purpose, one change at a time, and expects TLC to refuse each (in a scratch copy)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = '/opt/veriftools/tla/tla2tools.jar:' + ':'.join(os.path.join('/opt/veriftools/tla', f) for f in sorted(os.listdir('/opt/veriftools/tla')) if f.endswith('.jar'))
M = [  # model, configuration, file changed, old, new, what it is
 ('MC_Head', 'small', 'MC_Head', 'LET n == Min2(size, Len(src))\n               b == buf \\o Upto(src, n)\n               e == Find(b, CRLFCRLF, 1)',
  'LET n == Min2(size, Len(src))\n               b == buf \\o Upto(src, n)\n               e == IF Find(Upto(src, n), CRLFCRLF, 1) = 0 THEN 0 ELSE Find(b, CRLFCRLF, 1)', 'the blank line is looked for in the last piece only'),
 ('MC_Head', 'small', 'MC_Head', "body' = From(b, e + 4) \\o src'", "body' = From(b, e + 4)", 'the body is what was read too much'),
 ('MC_Boundary', 'small', 'MC_Boundary_small.cfg', 'Extra = 1', 'Extra = 0', 'nothing but the delimiter is held back'),
 ('MC_Boundary', 'small', 'MC_Boundary', "/\\ left' = From(x, Len(x) - Roll + 1) \\o l", "/\\ left' = l \\o From(x, Len(x) - Roll + 2)", 'one byte of the held back is lost'),
 ('MC_Boundary', 'small', 'MC_Boundary', 'Append(segs, s) /\\ seg\' = <<>>', "Append(segs, s) /\\ seg' = seg", 'a part keeps what the last one had'),
 ('MC_Limits', 'small', 'MC_Limits', 'limits[1] >= 0 /\\ c > limits[1]', 'limits[1] >= 0 /\\ cnt > limits[1]', 'fields are counted after the check'),
 ('MC_Limits', 'small', 'MC_Limits', 'Min2(left, Len(parts[i].data))', 'Len(parts[i].data)', 'a field is read in whole, whatever is left', ),
 ('MC_Limits', 'small', 'MC_Limits', "IF num' > limits[2] THEN", "IF num' >= limits[2] THEN", 'a body of exactly the limit is refused'),
 ('MC_Base64', 'small', 'MC_Base64', 'IF r = 0 \\/ rest = <<>> THEN', 'IF TRUE THEN', 'pieces are decoded as they come'),
 ('MC_Base64', 'small', 'MC_Base64', 'piece \\o NoWs(Upto(rest, n))', 'piece \\o Upto(rest, n)', 'white space in the filler stays'),
 ('MC_Lazy', 'small', 'MC_Lazy', "!.left = b \\o @", "!.left = @ \\o b", 'what is pushed back comes after what was'),
 ('MC_Lazy', 'small', 'MC_Lazy', "!.pos = @ - Len(b), ", "", 'the position is not moved back'),
 ('MC_Lazy', 'small', 'MC_Lazy', "!.past = <<>>, ", "", 'the history is never forgotten'),
 ('MC_Lazy', 'small', 'MC_Lazy', 'IF n = 0 \\/ Eof(i) THEN [ok |-> TRUE, v |-> acc, i |-> i]', 'IF n = 0 \\/ Eof(i) \\/ (i.left = <<>> /\\ Head(i.pieces) = <<>>) THEN [ok |-> TRUE, v |-> acc, i |-> i]', 'an empty piece ends a read'),
 ('MC_Request', 'set', 'Multipart', '/\\ cfg.mode # "none" ', '', 'files are delivered without a handler'),
 ('MC_Request', 'small', 'Request', '!.cache = "none", !.cval = <<>>, !.stale = TRUE', '!.stale = TRUE', 'a new stream keeps the body of the last'),
 ('MC_Request', 'small', 'Request', 'IF st.hp # "no" THEN Ok(st, <<>>)', 'IF st.hp = "bad" THEN Ok(st, <<>>)', 'the head is parsed again'),
 ('MC_Request', 'small', 'Request', '!.cs = IF st.und # "" THEN st.und ELSE @, !.und = "",', '!.und = "",', 'a declared charset outlives its request'),
 ('MC_Request', 'small', 'Request', 'Lines(st) == IF st.failing THEN Unreadable(st)', 'Lines(st) == IF FALSE THEN Unreadable(st)', 'lines of a failing source end quietly'),
 ('MC_Dict', 'small', 'MC_Dict', 'LET a == Alloc([k \\in DOMAIN objs[i].refs |-> heap[Ref(i, k)]], heap) IN', 'LET a == [refs |-> objs[i].refs, heap |-> heap] IN', 'copies share lists'),
 ('MC_Dict', 'small', 'MC_Dict', 'ELSE Ext(Append(h, h[ps[1][2]]), With(refs, k, Len(h) + 1), Tail(ps))', 'ELSE Ext(h, With(refs, k, ps[1][2]), Tail(ps))', 'update adopts the other\'s list'),
 ('MC_Dict', 'small', 'MC_Dict', 'IF ~Mut(i) THEN Same\n', 'IF FALSE THEN Same\n', 'read-only dictionaries can be appended to'),
 ('MC_File', 'small', 'MC_File', 'split == has /\\ Cr(buf) /\\ line # LF1', 'split == has /\\ Cr(buf)', 'CR LF cut by a chunk gives two lines'),
 ('MC_File', 'small', 'MC_File', "THEN disk' = <<mem \\o p>>", "THEN disk' = <<p>>", 'spilling forgets what was in memory'),
 ('MC_File', 'small', 'MC_File', 'got + k > limit THEN', 'got + k >= limit THEN', 'spilled one byte early'),
 ('MC_Names', 'small', 'HeaderValue', 'IF s[a] = 92 /\\ a < b /\\ s[a + 1] \\in {34, 92} THEN OpenAt', 'IF FALSE THEN OpenAt', 'escaped quotes end a quoted value'),
 ('MC_Settings', 'small', 'MC_Settings_small.cfg', 'OneName = FALSE', 'OneName = TRUE', 'one name for all probes'),
 ('MC_Settings', 'small', 'MC_Settings_small.cfg', 'Blind = FALSE', 'Blind = TRUE', 'does not look again'),
 ('MC_Safe', 'small', 'Safe', 'IF u[i] = 92 THEN 47 ELSE u[i]', 'u[i]', 'backslashes are no slashes'),
 ('MC_Safe', 'small', 'Safe', '/\\ ~IsCtl(u[1])', '', 'leading control characters are let through'),
 ('MC_Safe', 'small', 'Safe', '/\\ ~(p.netloc = <<>> /\\ p.scheme # <<>>)', '', 'a scheme without a host'),
 ('MC_Safe', 'small', 'Safe', 'EndsWith(host, p) \\/', 'EndsWith(host, Tail(p)) \\/', 'half a label matches'),
 ('MC_Uri', 'small', 'Uri', 'SafeIri  == {47, 35, 37,', 'SafeIri  == {47, 35,', 'percent signs are escaped again'),
 ('MC_Uri', 'small', 'Uri', '~EndsWith(path, <<47>>) THEN <<47>>', 'TRUE THEN <<47>>', 'a second slash'),
 ('MC_Uri', 'small', 'Uri', 'pct2F \\o From(u, 3)', 'pct2F \\o From(u, 2)', 'one slash is left at the front'),
 ('MC_Url', 'small', 'Url', 'hasS == c > 1 /\\', 'hasS == c > 0 /\\', 'an empty scheme'),
 ('MC_Url', 'small', 'Url', 'LAMBDA k : r1[k] \\in {47, 63, 35}', 'LAMBDA k : r1[k] \\in {47, 63}', 'an authority goes on after #'),
 ('MC_Url', 'small', 'Url', 'x # 0 /\\ x < Len(m)', 'x # 0', 'brackets round a lone colon'),
 ('MC_Url', 'small', 'Url', 'HostChars == (97..122) \\cup (48..57) \\cup {46, 45}', 'HostChars == (97..122) \\cup (48..57) \\cup {46, 45, 95}', 'underscores in hosts'),
 ('MC_Query', 'small', 'Params', 'v == IF e = 0 THEN <<>> ELSE From(f, e + 1)', 'v == LET z == RFindByte(f, 61) IN IF z = 0 THEN <<>> ELSE From(f, z + 1)', 'split at the last ='),
 ('MC_Query', 'small', 'Params', 't # <<>> /\\ Len(fs) > limit', 't # <<>> /\\ Len(fs) >= limit', 'one field too few'),
 ('MC_Query', 'small', 'Params', 'limit >= 0 /\\ t', 'limit > 0 /\\ t', 'a limit of 0 is no limit'),
 ('MC_Codec', 'small', 'Codec', 'y % 100 # 0 \\/ y % 400 = 0', 'y % 100 # 0', '2000 is no leap year'),
 ('MC_Codec', 'small', 'Codec', 'd[Len(d)] * 36) % 10', 'd[Len(d)] * 35) % 10', 'base 35'),
 ('MC_HeaderValue', 'small', 'HeaderValue', 'IF s[a] = 92 /\\ a < b /\\ s[a + 1] \\in {34, 92} THEN OpenAt', 'IF FALSE THEN OpenAt', 'escaped quotes end a quoted value'),
 ('MC_HeaderValue', 'small', 'HeaderValue', 'IF \\E j \\in (i + 1)..Len(ps) : ps[j][1] = ps[i][1]', 'IF \\E j \\in 1..(i - 1) : ps[j][1] = ps[i][1]', 'the first of a name decides'),
 ('MC_HeaderValue', 'small', 'HeaderValue', 'Replace1(Replace1(SubSeq(v, 2, Len(v) - 1), <<92, 92>>, <<92>>), <<92, 34>>, <<34>>)', 'Replace1(SubSeq(v, 2, Len(v) - 1), <<92, 34>>, <<34>>)', 'backslashes stay escaped'),
]
M += [
 ('MC_Handlers', 'small', 'MC_Handlers', 'IF a = "absorb" \\/ h = N THEN', 'IF h = N THEN', 'an absorbed chunk goes on'),
 ('MC_Handlers', 'small', 'MC_Handlers', "IF Scr.new = \"claim\" \\/ h = N", 'IF h = N', 'all are told in spite of a claim'),
 ('MC_Handlers', 'small', 'MC_Handlers', '/\\ cnt\' = [cnt EXCEPT ![h] = @ + Len(chunk)]', "/\\ cnt' = [x \\in 1..N |-> cnt[x] + Len(chunk)]", 'one offset for all'),
]
def one(m):
    mod, cfg, f, old, new, what = m
    d = tempfile.mkdtemp(prefix='mm')
    try:
        for x in os.listdir(V + '/spec'): shutil.copy(V + '/spec/' + x, d)
        p = os.path.join(d, f if f.endswith('.cfg') else f + '.tla')
        s = open(p).read()
        if old not in s: return m, 'NO MATCH'
        open(p, 'w').write(s.replace(old, new, 1))
        c = '%s_%s.cfg' % (mod, cfg)
        if not os.path.exists(os.path.join(d, c)): return m, 'NO CFG'
        r = subprocess.run(['timeout', '600', 'java', '-XX:+UseParallelGC', '-Xmx4g', '-cp', CP, 'tlc2.TLC', '-workers', '2', '-metadir', d + '/m', '-config', c, mod + '.tla'], cwd=d, capture_output=True, text=True)
        o = r.stdout
        bad = [l for l in o.splitlines() if l.startswith('Error:')]
        return m, ('refused: ' + bad[0][7:90]) if r.returncode in (12, 13, 10, 11, 14) else 'NOT NOTICED (rc %d) %s' % (r.returncode, bad[:2])
    finally: shutil.rmtree(d)
ok = True
sel = [m for m in M if len(sys.argv) < 2 or m[0] in sys.argv[1:]]
with ThreadPoolExecutor(3) as ex:
    for m, r in ex.map(one, sel):
        print('%-12s %-46s %s' % (m[0], m[5], r), flush=True)
        ok &= r.startswith('refused')
sys.exit(0 if ok else 1)
