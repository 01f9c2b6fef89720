#!/usr/bin/env python3
"""Writes contracts/wrappers.gcv: the per-type sockets delegate to the socket core."""
import os
T = ["pair", "pub", "sub", "req", "rep", "dealer", "router", "pull", "push", "xpub", "xsub", "stream"]
NOSEND = {"pull"}
NORECV = {"pub", "push"}
out = ["// Written by tools/mkwrappers.py: what every socket type does with its socket core (C15).", "package zmq4", ""]
for t in T:
    ty = t + "Socket"
    out.append("nonnil %s.sck" % ty)
for t in T:
    ty = t + "Socket"
    o = out.append
    o("\n// ---- " + t.upper())
    o("func (s *%s) Close() (err)" % ty)
    o("  prop C15\n  panics C15\n  races C15")
    o("  requires s.sck.cancel != nil")
    o("  modifies s.sck.isClosed, cancels(0), rwclosed(\"*\"), lclosed(\"*\")")
    o("  ensures [closed twice] old(s.sck.isClosed) ==> err != nil")
    o("  ensures [closed] s.sck.isClosed")
    for f in ("Send", "SendMulti"):
        o("\nfunc (s *%s) %s(msg) (err)" % (ty, f))
        o("  prop C15\n  panics C15\n  races C15")
        if t in NOSEND:
            o("  opt alwaysfails\n  ensures [one-directional] err != nil")
            continue
        o("  requires s.sck.w != nil")
        o("  modifies handed(s.sck.w), out(\"*\"), ioerr(\"*\"), field(\"Conn.closed\"), sends(s.sck)")
        o("  ensures [refused when closed] old(s.sck.isClosed) ==> err != nil && handed(s.sck.w) == old(handed(s.sck.w)) && (forall c int :: {out(c)} out(c) == old(out(c)))")
        if f == "Send":
            o("  ensures [delegated C14] err == nil ==> handed(s.sck.w) == old(handed(s.sck.w)) ++ unit(mkiface(msg, \"Msg\"))")
        else:
            o("  ensures [delegated C14] err == nil ==> len(handed(s.sck.w)) == len(old(handed(s.sck.w))) + 1 && as(handed(s.sck.w)[len(old(handed(s.sck.w)))], \"Msg\").Frames == msg.Frames")
    o("\nfunc (s *%s) Recv() (msg, err)" % ty)
    o("  prop C15\n  panics C15\n  races C15")
    if t in NORECV:
        o("  opt alwaysfails\n  ensures [one-directional] err != nil && len(msg.Frames) == 0")
    else:
        o("  requires s.sck.r != nil")
        o("  ensures [refused when closed] old(s.sck.isClosed) ==> err != nil && len(msg.Frames) == 0")
    o("\nfunc (s *%s) Listen(ep) (err)" % ty)
    o("  prop C15\n  panics C15\n  races C15\n  modifies *")
    o("  requires s.sck.typ != \"STREAM\" && (s.sck.subTopics != nil ==> s.sck.w != nil)")
    o("  ensures [refused when closed] old(s.sck.isClosed) ==> err != nil")
    o("  ensures [at most once] old(s.sck.listener) != nil ==> err != nil && old(s.sck).listener == old(s.sck.listener)")
    o("\nfunc (s *%s) Dial(ep) (err)" % ty)
    o("  prop C15\n  panics C15\n  races C15\n  modifies *")
    o("  requires s.sck.typ != \"STREAM\" && (s.sck.subTopics != nil ==> s.sck.w != nil)")
    o("  ensures [refused when closed] old(s.sck.isClosed) ==> err != nil")
NAMES = {"pub": "Pub", "sub": "Sub", "xpub": "XPub", "xsub": "XSub"}
for t in T:
    ty = t + "Socket"
    o = out.append
    o("\n// ---- options of " + t.upper())
    o("func (s *%s) GetOption(name) (v, err)" % ty)
    o("  prop C22\n  races C22\n  panics C22\n  requires s.sck.props != nil")
    o("  ensures [the value last set] mdom(s.sck.props)[name] ==> err == nil && v == mval(s.sck.props)[name]")
    o("  ensures [never set] !mdom(s.sck.props)[name] ==> err != nil && v == nil")
    if t not in ("pub", "sub"):
        o("\nfunc (s *%s) SetOption(name, value) (err)" % ty)
        o("  prop C22\n  races C22\n  panics C22\n  requires s.sck.props != nil\n  modifies map(s.sck.props)")
        o("  ensures [accepted] err == nil")
        o("  ensures [recorded] mdom(s.sck.props)[name] && mval(s.sck.props)[name] == value")
        o("  ensures [the others kept] forall k string :: {mval(s.sck.props)[k]} k != name ==> mval(s.sck.props)[k] == locked(mval(s.sck.props))[k] && mdom(s.sck.props)[k] == locked(mdom(s.sck.props))[k]")
    k = 'as(s, "*%s").sck' % ty
    o("\nfunc New%s(ctx, opts) (s)" % NAMES.get(t, t.capitalize()))
    o("  prop C22\n  panics C22")
    o("  requires forall k int :: {opts[k]} 0 <= k && k < len(opts) ==> opts[k] != nil")
    o("  ensures [its type] istype(s, \"*%s\") && %s != nil && %s.typ == \"%s\"" % (ty, k, k, t.upper()))
    o("  ensures [announces the given identity] ids(seq(opts), len(opts)) != empty(\"B\") ==> bytes(%s.id) == ids(seq(opts), len(opts))" % k)
    o("  ensures [a fresh identity otherwise] ids(seq(opts), len(opts)) == empty(\"B\") ==> len(%s.id) == 36" % k)
    o("  ensures [no option set yet] %s.props != nil && mdom(%s.props) == emptyset(\"string\")" % (k, k))
    o("  ensures [open and unconnected] !%s.isClosed && len(%s.conns) == 0 && %s.listener == nil" % (k, k, k))
    o("  ensures [a socket of its own] fresh(s)")
    o("  ensures [can be closed and dialled] %s.cancel != nil && (%s.subTopics != nil ==> %s.w != nil)" % (k, k, k))
    r = [] if t in NORECV else ["%s.r != nil" % k]
    w = [] if t in NOSEND else ["%s.w != nil" % k]
    o("  ensures [pools] " + " && ".join(r + w))
    if t in ("pub", "xpub"):
        q = 'as(%s.w, "*pubMWriter")' % k
        o("  ensures [filtering writer] istype(%s.w, \"*pubMWriter\") && %s != nil && %s.subscribers != nil && %s.hwm == 1000" % (k, q, q, q))
        o("  ensures [subscription reader] istype(%s.r, \"*pubQReader\") && as(%s.r, \"*pubQReader\").discard == %s" % (k, k, "true" if t == "pub" else "false"))
    if t == "sub":
        o("  ensures [no topics yet] %s.subTopics != nil && as(s, \"*subSocket\").topics != nil && (forall k string :: {mdom(as(s, \"*subSocket\").topics)[k]} !mdom(as(s, \"*subSocket\").topics)[k])" % k)
    if t == "req":
        o("  ensures [one exchange] istype(%s.r, \"*reqReader\") && istype(%s.w, \"*reqWriter\") && as(%s.r, \"*reqReader\").state != nil && as(%s.r, \"*reqReader\").state == as(%s.w, \"*reqWriter\").state" % (k, k, k, k, k))
    if t == "rep":
        o("  ensures [one exchange] istype(%s.r, \"*repReader\") && istype(%s.w, \"*repWriter\") && as(%s.r, \"*repReader\").state != nil && as(%s.r, \"*repReader\").state == as(%s.w, \"*repWriter\").state" % (k, k, k, k, k))
    if t == "router":
        o("  ensures [identity routing] istype(%s.r, \"*routerQReader\") && istype(%s.w, \"*routerMWriter\")" % (k, k))
open(os.path.join(os.path.dirname(__file__), "..", "contracts", "wrappers.gcv"), "w").write("\n".join(out) + "\n")
