#!/usr/bin/env python3
"""Do the exhaustive configurations notice errors of the specification? Each edit of NecoCore below must be refuted by its configuration."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import common as C
M = [
 ('RecvOrder', 'h.rcv # <<>> THEN Ok(Deliver(s, x, Head(h.rcv), v), c)', 'h.rcv # <<>> THEN Ok(Deliver(s, x, Last(h.rcv), v), c)', 1),
 ('Chan1', 'Append(Tail(h.buf), Head(h.snd).v)', 'Append(Tail(h.buf), Last(h.snd).v)', 1),
 ('Chan1', 'ELSE IF Len(h.buf) < h.cap', 'ELSE IF Len(h.buf) <= h.cap', 1),
 ('Chan0', 'IF Avail(z, x) THEN z ELSE CloseAll(z, x)', 'z', 1),
 ('Chan0', 'IF h.cls THEN Err(s, c, "CLOSED")', 'IF h.cls /\\ h.buf # <<>> THEN Err(s, c, "CLOSED")', 1),
 ('Chan0', '[] k.op \\in {"send", "recv", "select", "gnext", "gyield"} -> DropCh(s, c)', '[] k.op \\in {"recv", "select", "gnext", "gyield"} -> DropCh(s, c)', 1),
 ('Select', 'Deliver(s, x, e, v) == Grant(DropCh(s, e.c), e.c', 'Deliver(s, x, e, v) == Grant([s EXCEPT !.ch[x].rcv = Tail(@)], e.c', 1),
 ('Bcast', 'ELSE BcastAll(Deliver(s, x, Head(s.ch[x].rcv), v), x, v, n + 1)', 'ELSE IF n = 1 THEN [s |-> s, n |-> n] ELSE BcastAll(Deliver(s, x, Head(s.ch[x].rcv), v), x, v, n + 1)', 1),
 ('Gen', 'IF g # 0 THEN CloseCh(z, g) ELSE z', 'z', 1),
 ('Lock', 'ELSE [z EXCEPT !.mu[m].w = TRUE, !.co[e.c].ph = "gr"]', 'ELSE [z EXCEPT !.co[e.c].ph = "gr"]', 1),
 ('Lock', 'CanR(s, m) == ~s.mu[m].w /\\ s.mu[m].q = <<>>', 'CanR(s, m) == s.mu[m].q = <<>>', 1),
 ('Lock', 'ELSE IF k.r > 1 THEN [s EXCEPT !.mu[m].r = @ - 1]', 'ELSE IF k.r > 1 THEN HandOver([s EXCEPT !.mu[m].r = @ - 1], m)', 1),
 ('Lock', 'ELSE HandOver([s EXCEPT !.mu[m].w = FALSE, !.mu[m].r = 0], m)', 'ELSE [s EXCEPT !.mu[m].w = FALSE, !.mu[m].r = 0]', 1),
 ('Cond', 'IF CanW(z, m) THEN Grant(TakeW(z, m), c, r, 0, 0)', 'IF CanW(z, m) THEN Grant(z, c, r, 0, 0)', 1),
 ('Cond', 'ELSE [s EXCEPT !.co[Head(s.cv[x])].ph = "sg", !.cv[x] = Tail(@)]', 'ELSE [s EXCEPT !.co[Last(s.cv[x])].ph = "sg", !.cv[x] = Front(@)]', 1),
 ('CondCancel', 'Relock([DropCv(s, c) EXCEPT !.co[c].can = FALSE], c, "CANCELED")', 'Relock([DropCv(s, c) EXCEPT !.co[c].can = FALSE], c, "OK")', 1),
 ('Wg', 'IF s.wg[x].n = 0 THEN GrantAll(', 'IF s.wg[x].n = 0 /\\ Len(s.wg[x].q) < 2 THEN GrantAll(', 1),
 ('Wg', '[] k.op = "wgwait" -> [s EXCEPT !.wg[k.x].q = RemoveIf(@, Q)]', '[] k.op = "wgwait" -> s', 1),
 ('Cancel', 'TakeCancel(s, c) == Err([s EXCEPT !.co[c].can = FALSE], c, "CANCELED")', 'TakeCancel(s, c) == Err(s, c, "CANCELED")', 1),
 ('Cancel', '~k.can /\\ Expired(k.dl, e.t)\n', 'Expired(k.dl, e.t)\n', 1),
 ('Clean', 'k.cl # <<>> /\\ Last(k.cl) = h', 'k.cl # <<>> /\\ Head(k.cl) = h', 1),
 ('Clean', 'IF k.cl = <<>> /\\ (Dying', 'IF (Dying', 1),
 ('Join', 'IF k.st = "op" /\\ k.ph = "bl" /\\ k.x = c /\\ k.op = "join"', 'IF k.st = "op" /\\ k.ph = "bl" /\\ k.op = "join"', 1),
 ('Susp', 'THEN { Ok(Ok(s, o.x), c) }', 'THEN { Ok(s, c) }', 1),
 ('Susp', 'ELSE { Err(s, c, "NOTSUSPENDED") }', 'ELSE { Ok(Ok(s, o.x), c) }', 1),
 ('Sig', 'ToUser([s EXCEPT !.sig[e.v] = @ - 1], c)', 'ToUser([s EXCEPT !.sig[e.v] = 0], c)', 1),
 ('Work', '/\\ WorkFree(s, k.x) /\\', '/\\', None),   # follows from the order
 ('Work', 'k.ph = "wr"\n  THEN { Ok(', 'k.ph \\in {"wk", "wr"}\n  THEN { Ok(', 1),
 ('Time', '~k.can /\\ Expired(k.dl, e.t)\n', '~k.can /\\ (Expired(k.dl, e.t) \\/ k.op = "lock")\n', 1),
]
def main():
    top = tempfile.mkdtemp(prefix='specmut.')
    bad = 0
    for i, (cfg, a, b, want) in enumerate(M):
        if len(sys.argv) > 1 and cfg not in sys.argv[1:]:
            continue
        d = f'{top}/{i}'
        shutil.copytree(V + '/spec', d)
        s = open(d + '/NecoCore.tla').read()
        if s.count(a) < 1:
            print('NO MATCH', cfg, a); bad += 1; continue
        open(d + '/NecoCore.tla', 'w').write(s.replace(a, b, 1))
        C.SPEC = d
        rc, out, gen, dist = C.tlc('MCCore.tla', f'MC_{cfg}.cfg', top, heap='6g', workers=4, timeout=600, c1=False)
        hit = [l for l in out.split('\n') if 'violated' in l]
        err = 'Error' in out and not hit
        print(cfg, a[:50].replace('\n', ' '), '->', hit[0] if hit else ('TLC ERROR ' + out[-300:] if err else 'not noticed'), flush=True)
        if want and not hit:
            bad += 1
    shutil.rmtree(top)
    return 1 if bad else 0
sys.exit(main())
