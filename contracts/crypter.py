"""Contracts of S2ACrypter (P08, P09, P10, P12, P13, P19).

Callee contracts: S2AHalfConnection::Encrypt/Decrypt/UpdateKey/TagLength/Create (proved in half.py and
aead.py), HandshakeMessageHandler::ProcessHandshakeMessage/GetStoredTickets (hmh.py).
"""
import z3
from cppvc.verify import *
from cppvc.cast import Unsupported
from cppvc.types import Ty, U8, SIZE, parse
from cppvc.terms import *
from cppvc.values import *
from cppvc.loops import val_eq as deep_eq
from cppvc.engine import Engine, Pieces, Frame
from .half import same_arr

NS = "s2a::record_protocol::S2ACrypter"
HALF = "s2a::record_protocol::S2AHalfConnection"
HMH = "s2a::handshake_message_handler::HandshakeMessageHandler"
CS = "s2a::aead_crypter::S2AAeadCrypter::CrypterStatus"
V8 = Ty("vec", [U8])
PTB = uf("ptb", 1)            # decrypted inner plaintext
CTB = uf("ctb", 1)            # produced ciphertext and tag
MAXP = 16384
OK, INVALID_RECORD, CLOSE, OVERFLOW, OTHER = 0, 3, 5, 6, 7
NOT_RECEIVED, RECEIVING, DONE = 0, 1, 2


def engine(func, props):
    t = tu("src/record_protocol/s2a_crypter.cc", "openssl")
    E = Engine([t, tu("src/crypto/s2a_aead_crypter.cc", "openssl"), tu("src/record_protocol/s2a_crypter_util.cc", "openssl")])
    E.func, E.props = "S2ACrypter::" + func, props
    E.frames.append(Frame(t, None))
    for nm in ("ptb", "ctb"):
        f = uf(nm, 1)
        E.ax.on(nm, lambda i, f=f: and_(le(0, app(f, i)), le(app(f, i), 255)))
    H = E.hooks
    H[HALF + "::TagLength"] = lambda E, this, vals, st, n: [(16, st)]
    H[HALF + "::Encrypt"] = enc_hook
    H[HALF + "::Decrypt"] = dec_hook
    H[HALF + "::UpdateKey"] = upd_hook
    H[HALF + "::Create"] = half_create_hook
    H[HMH + "::ProcessHandshakeMessage"] = process_hook
    H[HMH + "::GetStoredTickets"] = tickets_hook
    H[HMH + "::HandshakeMessageHandler"] = lambda E, this, vals, st, n: [(handler(False, False, 0), st)]
    H["fn*ticket_sender"] = sender_hook
    E.hooks["fn*logger"] = lambda E, this, vals, st, n: [(UNIT, st)]
    return E, t


def args(E, vals, st):
    out = []
    for v in vals:
        x, st = E.rv(v, st)
        out.append(x)
    return out, st


def ghost(st, k, v):
    st.ghost[k] = st.ghost.get(k, ()) + (v,)


# -- callee contracts ---------------------------------------------------------
def iov_bytes(E, st, x, n):
    """[(get, st)] bytes of an Iovec."""
    from cppvc.models import read_range
    return read_range(E, st, x.f["iov_base"], x.f["iov_len"], n)


def enc_hook(E, this, vals, st, n):
    from cppvc.models import write_range
    (aad, txt, out), st = args(E, vals, st)
    w = out.f["iov_len"]
    res = []
    ad = None
    if isinstance(conc(aad.n), int) and conc(aad.n) == 1:
        ad = aad.get(0)
        (get, st), = iov_bytes(E, st, ad, n)
        m = Arr(U8, ad.f["iov_len"], get)
    else:
        raise Unsupported("associated data in several pieces")
    flat = flat_total(E, st, txt)
    snap = (this, m, txt, out, st.copy())
    s = st.copy()
    ghost(s, "enc", snap)
    # failure: anything may be in the buffer
    code = fresh_int("enccode")
    nm = fresh_name("garb")
    for f in write_range(E, s.assume(le(1, code), le(code, 16)), out.f["iov_base"], w, lambda j: E.sym_int(U8, nm, (j,)), n):
        res.append((Struct(CS, {"status_": Status(code), "bytes_written_": 0}), f))
    good = s.assume(le(add(flat, 16), w))
    if E.feasible(good):
        for g in write_range(E, good, out.f["iov_base"], add(flat, 16), lambda j: app(CTB, j), n):
            res.append((Struct(CS, {"status_": Status(0), "bytes_written_": add(flat, 16)}), g))
    return res


def flat_total(E, st, txt):
    """Total number of bytes of a vector<Iovec> built from the pieces of the input."""
    if txt.pieces is not None:
        return txt.pieces.total
    if txt.flatg is not None:
        return txt.flatg.n
    # as many bytes as the pieces followed by the remaining elements
    P = E._pieces.get("text")
    k = P.n
    if isinstance(conc(txt.n), int):
        t = 0
        for i in range(conc(txt.n)):
            t = add(t, txt.get(i).f["iov_len"])
        return t
    if not E.valid(st, eq(txt.n, add(k, 1))):
        raise Unsupported("length of the payload vector")
    return add(P.total, txt.get(k).f["iov_len"])


def dec_hook(E, this, vals, st, n):
    from cppvc.models import write_range
    (aad, txt, out), st = args(E, vals, st)
    if conc(aad.n) != 1:
        raise Unsupported("associated data in several pieces")
    ad = aad.get(0)
    s = st.copy()
    ghost(s, "dec", (this, ad, txt, out))
    total = txt.pieces.total if txt.pieces is not None else None
    if total is None:
        raise Unsupported("payload is not the given vector")
    res = []
    code = fresh_int("deccode")
    nm = fresh_name("garb")
    for f in write_range(E, s.assume(le(1, code), le(code, 16)), out.f["iov_base"], out.f["iov_len"], lambda j: E.sym_int(U8, nm, (j,)), n):
        f = f.copy()
        f.ghost["decok"] = False
        res.append((Struct(CS, {"status_": Status(code), "bytes_written_": 0}), f))
    bw = sub(total, 16)
    g = s.assume(le(16, total), le(bw, out.f["iov_len"]))
    if E.feasible(g):
        for g in write_range(E, g, out.f["iov_base"], bw, lambda j: app(PTB, j), n):
            g = g.copy()
            g.ghost["decok"] = True
            res.append((Struct(CS, {"status_": Status(0), "bytes_written_": bw}), g))
    return res


def upd_hook(E, this, vals, st, n):
    s = st.copy()
    c = fresh_int("updcode")
    s.add(le(0, c), le(c, 16))
    ghost(s, "upd", (this, c))
    return [(Status(c), s)]


def half_create_hook(E, this, vals, st, n):
    (cs, seq, sec), st = args(E, vals, st)
    res = []
    c = fresh_int("hcode")
    f = st.copy()
    f.add(le(1, c), le(c, 16))
    f.ghost["halffail"] = c
    res.append((Variant(0, [Status(c), None]), f))
    res.append((Variant(1, [None, UPtr(False, half(cs, seq, sec), Ty("rec", name=HALF))]), st))
    return res


def half(cs, seq, sec):
    return Struct(HALF, {"$cs": cs, "$seq": seq, "$sec": sec})


def handler(ret, midt, n):
    """Ghost state of the handshake handler: tickets retrieved, inside a ticket, tickets stored."""
    return Struct(HMH, {"$ret": ret, "$midt": midt, "$n": n})


def process_hook(E, this, vals, st, n):
    (p, ln), st = args(E, vals, st)
    h = st.load(this)
    ret, n0 = h.f["$ret"], h.f["$n"]
    res = []
    s = st.copy()
    n1, midt = fresh_int("stored"), fresh_bool("midticket")
    s.add(le(n0, n1), le(n1, 5), implies(ret, eq(n1, 0)))
    s.ghost["hs"] = s.ghost.get("hs", ()) + ((p, ln, st.load(p.lv) if isinstance(p, Ptr) else None),)
    code = fresh_int("hscode")
    f = s.copy()
    f.add(le(1, code), le(code, 16))
    f.store(this, handler(ret, False, n1))
    f.ghost["hsres"] = None
    res.append((Variant(0, [Status(code), None]), f))
    e, ku, ct = fresh_bool("expecting"), fresh_bool("keyupdate"), fresh_bool("ticket")
    kt = E.sym_int(U8, fresh_name("kutype"))
    g = s
    g.add(implies(gt(n1, n0), ct), implies(midt, e), implies(and_(midt, lt(0, ln)), ct))
    g.store(this, handler(ret, midt, n1))
    r = Struct(HMH + "::Result", {"expecting_to_read_more_bytes": e, "contains_key_update": ku, "key_update_type": kt, "contains_ticket": ct, "num_full_tickets_stored": n1})
    g.ghost["hsres"] = (e, ku, ct, n1)
    res.append((Variant(1, [None, r]), g))
    return res


def tickets_hook(E, this, vals, st, n):
    h = st.load(this)
    ret, midt, k = h.f["$ret"], h.f["$midt"], h.f["$n"]
    res = []
    for b, s in E.branch(st, or_(ret, and_(midt, lt(k, 5)))):
        if b:
            s = s.copy()
            s.ghost["retrfail"] = True
            res.append((Variant(0, [Status(13), None]), s))
            continue
        s1 = s.copy()
        s1.store(this, handler(True, midt, 0))
        s1.ghost["retrieved"] = k
        fragty = Ty("uptr", [V8])
        msgty = Ty("vec", [fragty])
        a = Arr(Ty("uptr", [msgty]), k, lambda i: UPtr(False, Pieces(E, "ticket", (i,), nullable=False).fragments(fragty), msgty))
        res.append((Variant(1, [None, UPtr(False, a, Ty("vec", [Ty("uptr", [msgty])]))]), s1))
    return res


def sender_hook(E, this, vals, st, n):
    o, st = E.as_lv(vals[0], st)
    s = st.copy()
    opt = s.load(o)
    ident = opt.f.get("local_identity")
    if isinstance(ident, LV):
        ident = s.load(ident)
    ghost(s, "sent", (opt, ident))
    return [(Fn(fresh_bool("nowait"), "waiter"), s)]


# -- symbolic object ----------------------------------------------------------
def sym_obj(E, st, t):
    f = {}
    for nm, ft in E.fields(NS, t):
        if nm in ("in_connection_", "out_connection_"):
            f[nm] = UPtr(False, half(fresh_int("suite"), fresh_int("seq"), E.sym(V8, nm + "secret")), ft.elem)
        elif nm == "handshake_message_handler_":
            f[nm] = UPtr(False, handler(fresh_bool("retrieved"), fresh_bool("midticket"), fresh_int("stored")), ft.elem)
        elif nm == "ticket_sender_function_":
            f[nm] = Fn(False, "ticket_sender")
        elif nm == "wait_on_ticket_sender_function_":
            f[nm] = Fn(fresh_bool("nowait"), "waiter")
        elif nm == "logger_":
            f[nm] = Fn(False, "logger")
        else:
            f[nm] = E.sym(ft, "this." + nm)
    hs = f["hs_message_handling_state_"]
    f["hs_message_handling_state_"] = UPtr(False, hs.val, hs.ety)
    o = Struct(NS, f)
    th = E.alloc(st, "this", o)
    st.add(wf(o))
    return th, o


def parts(o):
    h = o.f["handshake_message_handler_"].val.f
    s = o.f["hs_message_handling_state_"].val.f
    return h, s["phase"], s["expecting_to_read_more_bytes"]


def wf(o):
    """Class invariant linking the crypter with its handshake handler."""
    h, ph, ex = parts(o)
    return and_(le(0, ph), le(ph, 2), le(0, h["$n"]), le(h["$n"], 5), eq(eq(ph, DONE), h["$ret"]),
                implies(h["$ret"], eq(h["$n"], 0)), implies(h["$midt"], ex))


def status3(v):
    """(code, bytes_written) of an S2ACrypterStatus."""
    return v.f["code_"], v.f["bytes_written_"]


def iovec(E, t):
    return parse("s2a::aead_crypter::Iovec", t)


def unchanged(o, o2, but=()):
    c = []
    for k in o.f:
        if k not in but:
            c.append(deep_eq(o.f[k], o2.f[k]))
    return and_(*c)


# -- Protect --------------------------------------------------------------------
def protect():
    E, t = engine("Protect", ("P08",))
    st = State()
    th, o = sym_obj(E, st, t)
    iov = iovec(E, t)
    txt = Pieces(E, "text")
    pl = E.alloc(st, "plaintext", txt.iovecs(iov), Ty("vec", [iov]))
    L = E.sym_int(SIZE, "recLen")
    st.add(lt(L, 2 ** 62))
    buf = Arr(U8, L, lambda j: E.sym_int(U8, "rec", (j,)), "arr")
    bl = E.alloc(st, "record", buf, Ty("arr", [U8]))
    out = Struct(iov.name, {"iov_base": Ptr(False, bl, 0), "iov_len": L})
    rt = fresh_int("rtype")
    st.add(le(0, rt), le(rt, 255))
    fn = find1(t, NS + "::Protect")
    T = txt.total
    tyb = ite(eq(rt, 0), 23, ite(eq(rt, 1), 21, 22))
    for v, s in E.call(fn, t, th, [rt, pl, out], st):
        v, s = E.rv(v, s)
        code, bw = status3(v)
        b2 = s.load(bl)
        encs = s.ghost.get("enc", ())
        j = fresh_int("skj")
        E.ob(s, unchanged(o, s.load(th)), "no state besides the outbound direction changes", "post", fn)
        E.ob(s, len(s.ghost.get("upd", ())) == 0 and len(s.ghost.get("sent", ())) == 0, "no key update, no tickets", "post", fn)
        for good, s1 in E.branch(s, and_(le(T, MAXP), le(add(T, 22), L), le(rt, 2))):
            if not good:
                E.ob(s1, and_(ne(code, 0), eq(bw, 0)), "refused with an error", "post", fn)
                E.ob(s1, len(encs) == 0, "refused without encrypting", "post", fn)
                continue
            E.ob(s1, len(encs) == 1, "exactly one encryption", "post", fn)
            if len(encs) != 1:
                continue
            lv, ad, pay, o3, es = encs[0]
            E.ob(s1, lv.cell == th.cell and lv.path[:1] == (("f", "out_connection_"),), "outbound direction used", "post", fn)
            hdr = [23, 3, 3, div(add(T, 17), 256), mod(add(T, 17), 256)]
            E.ob(s1, eq(ad.n, 5), "associated data is the 5-byte header", "post", fn)
            for k in range(5):
                E.ob(s1, eq(ad.get(k), hdr[k]), "associated data byte %d is the header" % k, "post", fn)
            payload_is(E, s1, es, pay, txt, tyb, fn)
            bp = o3.f["iov_base"]
            E.ob(s1, and_(isinstance(bp, Ptr) and bp.lv.cell == bl.cell and bp.off is not None, eq(bp.off, 5), eq(o3.f["iov_len"], sub(L, 5))), "encrypted in place after the header", "post", fn)
            for ok, s2 in E.branch(s1, eq(code, 0)):
                if ok:
                    E.ob(s2, eq(bw, add(T, 22)), "reported size is plaintext plus 22", "post", fn)
                    for k in range(5):
                        E.ob(s2, eq(b2.get(k), hdr[k]), "header byte %d" % k, "post", fn)
                    E.ob(s2, implies(and_(le(0, j), lt(j, add(T, 17))), eq(b2.get(add(5, j)), app(CTB, j))), "ciphertext and tag follow the header", "post", fn)
                    E.ob(s2, implies(and_(le(add(T, 22), j), lt(j, L)), eq(b2.get(j), buf.get(j))), "nothing written behind the record", "post", fn)
                else:
                    E.ob(s2, eq(bw, 0), "no bytes reported on error", "post", fn)
                    E.ob(s2, implies(and_(le(0, j), lt(j, L)), eq(b2.get(j), 0)), "record wiped on error", "post", fn)
            # the result is an error exactly when encryption failed
    return E


def payload_is(E, s1, es, pay, txt, tyb, fn):
    """pay denotes the pieces of txt followed by the byte tyb."""
    if pay.flatg is not None:
        E.ob(s1, eq(pay.flatg.n, add(txt.total, 1)), "encrypted: plaintext and content type (length)", "post", fn)
        j = fresh_int("skj")
        E.ob(s1, implies(and_(le(0, j), lt(j, txt.total)), eq(pay.flatg.get(j), txt.flat(j))), "encrypted: plaintext in order", "post", fn)
        E.ob(s1, eq(pay.flatg.get(txt.total), tyb), "content type follows the plaintext", "post", fn)
        return
    E.ob(s1, eq(pay.n, add(txt.n, 1)), "encrypted: all pieces and the content type", "post", fn)
    i = fresh_int("ski")
    s2 = s1.assume(le(0, i), lt(i, txt.n))
    e, w = pay.get(i), txt.iovecs(None).get(i)
    E.ob(s2, or_(deep_eq(e, w), and_(eq(e.f["iov_len"], 0), eq(txt.len(i), 0))), "encrypted: plaintext pieces in order", "post", fn)
    last = pay.get(txt.n)
    while isinstance(last, Struct) and isinstance(last.f["iov_base"], PIte):
        x = last.f["iov_base"]
        last = last.set("iov_base", x.a if E.valid(s1, x.c) else x.b)
    b = last.f["iov_base"]
    if isinstance(b, PV):
        raise Unsupported("content type piece")
    byte = es.load(b.lv) if b.off is None else es.load(b.lv).get(b.off)
    E.ob(s1, and_(not_(b.null), eq(last.f["iov_len"], 1), eq(byte, tyb)), "content type follows the plaintext", "post", fn)


# -- forwarding the tickets (private helper, contract used by Unprotect when it is met) ------------
RETR = NS + "::RetrieveStoredTicketsAndSendToS2A"


def retrieve():
    """Contract: fails silently when the handler has nothing retrievable; otherwise one call of the sender with
    exactly the stored tickets; besides that only the handler, the waiter and the channel are touched."""
    E, t = engine("RetrieveStoredTicketsAndSendToS2A", ("P13",))
    st = State()
    th, o = sym_obj(E, st, t)
    fn = find1(t, RETR)
    h0, ph0, ex0 = parts(o)
    for v, s in E.call(fn, t, th, [], st):
        o2 = s.load(th)
        h1, ph1, ex1 = parts(o2)
        g = s.ghost
        must = not_(or_(h0["$ret"], and_(h0["$midt"], lt(h0["$n"], 5))))
        sends(E, s, fn, g.get("sent", ()), must, o, g)
        E.ob(s, len(g.get("upd", ())) == 0 and len(g.get("hs", ())) == 0, "forwarding touches no key", "post", fn, ("P12", "P13"))
        E.ob(s, unchanged(o, o2, ("handshake_message_handler_", "wait_on_ticket_sender_function_", "channel_factory_", "channel_options_")), "forwarding changes nothing else", "post", fn, ("P10", "P12", "P13"))
        for m, s1 in E.branch(s, must):
            if not m:
                E.ob(s1, unchanged(o, o2), "nothing changes when there is nothing to forward", "post", fn, ("P13",))
            else:
                E.ob(s1, and_(h1["$ret"], eq(h1["$n"], 0), eq(h1["$midt"], h0["$midt"])), "tickets are marked retrieved", "post", fn, ("P13",))
    return E


def retrieve_hook(E, this, vals, st, n):
    o = st.load(this)
    h, ph, ex = parts(o)
    res = []
    for bad, s in E.branch(st, or_(h["$ret"], and_(h["$midt"], lt(h["$n"], 5)))):
        if bad:
            res.append((UNIT, s))
            continue
        s = s.copy()
        k = h["$n"]
        s.ghost["retrieved"] = k
        sty = Ty("str")

        def ticket(i):
            V = Pieces(E, "ticket", (i,), nullable=False)
            return UPtr(False, Arr(U8, V.total, V.flat), sty)
        tick = UPtr(False, Arr(Ty("uptr", [sty]), k, ticket), Ty("vec", [Ty("uptr", [sty])]))
        opt = Struct("options", {"connection_id": o.f["connection_id_"], "handshaker_service_url": o.f["handshaker_service_url_"], "tickets": tick,
                                 "channel_factory": o.f["channel_factory_"], "channel_options": o.f["channel_options_"]})
        ghost(s, "sent", (opt, o.f["local_identity_"]))
        hh = o.f["handshake_message_handler_"]
        o2 = o.set("handshake_message_handler_", UPtr(hh.null, handler(True, h["$midt"], 0), hh.ety))
        for nm in ("channel_factory_", "channel_options_"):
            o2 = o2.set(nm, UPtr(True, o.f[nm].val, o.f[nm].ety))
        o2 = o2.set("wait_on_ticket_sender_function_", Fn(fresh_bool("nowait"), "waiter"))
        s.store(this, o2)
        res.append((UNIT, s))
    return res


# -- Unprotect -------------------------------------------------------------------
def unprotect():
    E, t = engine("Unprotect", ("P09",))
    # modular when the helper exists and meets its contract, inlined otherwise
    try:
        R = retrieve()
        discharge(R, workers=4)
        if R.obls and all(x.result == "proved" for x in R.obls):
            E.hooks[RETR] = retrieve_hook
            E.obls.extend(R.obls)
    except Unsupported:
        pass
    st = State()
    th, o = sym_obj(E, st, t)
    iov = iovec(E, t)
    txt = Pieces(E, "payload")
    pl = E.alloc(st, "payload", txt.iovecs(iov), Ty("vec", [iov]))
    HL, L = E.sym_int(SIZE, "hdrLen"), E.sym_int(SIZE, "outLen")
    st.add(lt(L, 2 ** 62), lt(HL, 2 ** 62))
    hdr = Arr(U8, HL, lambda j: E.sym_int(U8, "hdr", (j,)), "arr")
    hl = E.alloc(st, "header", hdr, Ty("arr", [U8]))
    hnull = fresh_bool("hdrnull")
    buf = Arr(U8, L, lambda j: E.sym_int(U8, "out", (j,)), "arr")
    bl = E.alloc(st, "plaintext", buf, Ty("arr", [U8]))
    head = Struct(iov.name, {"iov_base": Ptr(hnull, hl, 0), "iov_len": HL})
    out = Struct(iov.name, {"iov_base": Ptr(False, bl, 0), "iov_len": L})
    T = txt.total
    closed = o.f["close_notify_received_"]
    h0, ph0, ex0 = parts(o)
    inner = sub(T, 16)
    # the last non-zero byte of the inner plaintext (-1: none)
    last = fresh_int("last")
    st.add(le(-1, last), implies(le(0, last), and_(lt(last, inner), ne(app(PTB, last), 0))))
    E.ax.on("ptb", lambda i: implies(and_(gt(i, last), lt(i, inner), le(0, i)), eq(app(PTB, i), 0)))
    E.inv_extra = lambda E, hd, lp: [x for c in lp.cols[:lp.nleaf] for x in
                                     (le(last, c), lt(last, c), implies(or_(ge(c, inner), lt(c, 0)), eq(last, -1)))]
    fn = find1(t, NS + "::Unprotect")
    for v, s in E.call(fn, t, th, [head, pl, out], st):
        v, s = E.rv(v, s)
        post_unprotect(E, s, fn, v, o, s.load(th), th, closed, HL, hnull, hdr, hl, T, last, L, buf, bl, txt)
    return E


def post_unprotect(E, s, fn, v, o, o2, th, closed, HL, hnull, hdr, hl, T, last, L, buf, bl, txt):
    code, bw = status3(v)
    b2 = s.load(bl)
    g = s.ghost
    decs, upds, sent, hss = g.get("dec", ()), g.get("upd", ()), g.get("sent", ()), g.get("hs", ())
    h0, ph0, ex0 = parts(o)
    h1, ph1, ex1 = parts(o2)
    j = fresh_int("skj")
    wiped = implies(and_(le(0, j), lt(j, L)), eq(b2.get(j), 0))
    kept = implies(and_(le(0, j), lt(j, L)), eq(b2.get(j), buf.get(j)))
    HS = ("hs_message_handling_state_", "handshake_message_handler_", "wait_on_ticket_sender_function_", "channel_factory_", "channel_options_", "close_notify_received_")
    quiet = len(upds) == 0 and len(sent) == 0 and len(hss) == 0
    E.ob(s, wf(o2), "class invariant kept", "post", fn, ("P12", "P13"))
    E.ob(s, unchanged(o, o2, HS), "identity, secrets and directions unchanged", "post", fn, ("P09", "P12", "P13"))
    rec = add(HL, T)
    for c, s1 in E.branch(s, closed):
        if c:
            E.ob(s1, and_(eq(code, CLOSE), eq(bw, 0)), "after close-notify: close-notify again", "post", fn, ("P10",))
            E.ob(s1, len(decs) == 0 and quiet, "after close-notify: no decryption, no key touched", "post", fn, ("P10",))
            E.ob(s1, kept, "after close-notify: output untouched", "post", fn, ("P10",))
            E.ob(s1, unchanged(o, o2), "after close-notify: state unchanged", "post", fn, ("P10",))
            continue
        valid = and_(le(22, rec), le(rec, MAXP + 22), not_(hnull), eq(HL, 5), eq(hdr.get(0), 23), eq(hdr.get(1), 3), eq(hdr.get(2), 3),
                     eq(add(mul(256, hdr.get(3)), hdr.get(4)), T))
        for ok, s2 in E.branch(s1, valid):
            if not ok:
                E.ob(s2, and_(ne(code, 0), eq(bw, 0)), "malformed record is an error", "post", fn, ("P09",))
                E.ob(s2, implies(gt(rec, MAXP + 22), eq(code, OVERFLOW)), "oversized record reported as overflow", "post", fn, ("P09",))
                E.ob(s2, len(decs) == 0 and quiet, "malformed record is not decrypted", "post", fn, ("P09", "P12", "P13"))
                E.ob(s2, unchanged(o, o2), "malformed record changes no state", "post", fn, ("P10", "P12", "P13"))
                continue
            E.ob(s2, len(decs) == 1, "exactly one decryption", "post", fn, ("P09",))
            if len(decs) != 1:
                continue
            lv, ad, pay, o3 = decs[0]
            E.ob(s2, lv.cell == th.cell and lv.path[:1] == (("f", "in_connection_"),), "inbound direction used", "post", fn, ("P09",))
            ab = ad.f["iov_base"]
            E.ob(s2, and_(isinstance(ab, Ptr) and ab.lv.cell == hl.cell, eq(ab.off, 0), eq(ad.f["iov_len"], 5)), "header is the associated data", "post", fn, ("P09",))
            E.ob(s2, pay.pieces is txt, "payload decrypted as given", "post", fn, ("P09",))
            ob_ = o3.f["iov_base"]
            E.ob(s2, and_(isinstance(ob_, Ptr) and ob_.lv.cell == bl.cell, eq(ob_.off, 0), eq(o3.f["iov_len"], L)), "decrypted into the output buffer", "post", fn, ("P09",))
            if not g["decok"]:
                E.ob(s2, and_(ne(code, 0), eq(bw, 0)), "authentication failure is an error without data", "post", fn, ("P09",))
                E.ob(s2, quiet, "authentication failure has no effect", "post", fn, ("P12", "P13"))
                E.ob(s2, unchanged(o, o2), "authentication failure changes no state", "post", fn, ("P10", "P12", "P13"))
                continue
            for none, s3 in E.branch(s2, eq(last, -1)):
                if none:
                    E.ob(s3, and_(ne(code, 0), eq(bw, 0)), "a record without content type is an error", "post", fn, ("P09",))
                    E.ob(s3, quiet, "a record without content type has no effect", "post", fn, ("P12", "P13"))
                    E.ob(s3, unchanged(o, o2), "a record without content type changes no state", "post", fn, ("P10", "P12", "P13"))
                    continue
                ty = app(PTB, last)
                post_type(E, s3, fn, ty, code, bw, b2, o, o2, g, last, L, bl, wiped, j, th, HS, quiet)


def post_type(E, s3, fn, ty, code, bw, b2, o, o2, g, last, L, bl, wiped, j, th, HS, quiet):
    upds, sent, hss = g.get("upd", ()), g.get("sent", ()), g.get("hs", ())
    h0, ph0, ex0 = parts(o)
    h1, ph1, ex1 = parts(o2)
    for kind in (23, 21, 22, None):
        s = s3.assume(eq(ty, kind) if kind is not None else and_(ne(ty, 23), ne(ty, 21), ne(ty, 22)))
        if not E.feasible(s):
            continue
        if kind == 21:
            want = ite(lt(last, 2), INVALID_RECORD, ite(eq(app(PTB, 1), 0), CLOSE, OTHER))
            E.ob(s, and_(eq(code, want), eq(bw, 0)), "alert kind reported, without data", "post", fn, ("P10", "P09"))
            E.ob(s, wiped, "output wiped after an alert", "post", fn, ("P10",))
            E.ob(s, eq(o2.f["close_notify_received_"], eq(want, CLOSE)), "close-notify latched exactly then", "post", fn, ("P10",))
            E.ob(s, quiet, "an alert updates no key and sends no ticket", "post", fn, ("P12", "P13"))
            E.ob(s, unchanged(o, o2, ("close_notify_received_",)), "an alert changes nothing else", "post", fn, ("P10", "P12", "P13"))
        elif kind is None:
            E.ob(s, and_(eq(code, INVALID_RECORD), eq(bw, 0)), "unknown content type is an invalid record", "post", fn, ("P10", "P09"))
            E.ob(s, wiped, "output wiped after an unknown content type", "post", fn, ("P10",))
            E.ob(s, quiet, "an unknown content type has no effect", "post", fn, ("P12", "P13"))
            E.ob(s, unchanged(o, o2), "an unknown content type changes no state", "post", fn, ("P10", "P12", "P13"))
        elif kind == 23:
            E.ob(s, eq(eq(code, 0), not_(ex0)), "application data accepted exactly outside a handshake message", "post", fn, ("P09", "P13"))
            E.ob(s, eq(bw, ite(ex0, 0, last)), "count is the content length", "post", fn, ("P09",))
            E.ob(s, implies(and_(not_(ex0), le(0, j), lt(j, last)), eq(b2.get(j), app(PTB, j))), "output is the content", "post", fn, ("P09",))
            E.ob(s, len(upds) == 0 and len(hss) == 0, "application data updates no key", "post", fn, ("P12",))
            E.ob(s, not_(o2.f["close_notify_received_"]), "application data does not close", "post", fn, ("P10",))
            must = and_(not_(ex0), eq(ph0, RECEIVING))
            sends(E, s, fn, sent, must, o, g)
            E.ob(s, eq(ph1, ite(must, DONE, ph0)), "forwarding phase after application data", "post", fn, ("P13",))
            E.ob(s, eq(ex1, ex0), "still inside a handshake message exactly as before", "post", fn, ("P13", "P12"))
        else:
            E.ob(s, eq(bw, 0), "a handshake record yields no data", "post", fn, ("P09",))
            E.ob(s, not_(o2.f["close_notify_received_"]), "a handshake record does not close", "post", fn, ("P10",))
            E.ob(s, len(hss) == 1, "handshake bytes parsed exactly once", "post", fn, ("P12", "P13"))
            if len(hss) != 1:
                continue
            p, ln, arr = hss[0]
            E.ob(s, and_(isinstance(p, Ptr) and p.lv.cell == bl.cell, eq(p.off, 0), eq(ln, last)), "parser sees the content without type and padding", "post", fn, ("P12", "P13"))
            if arr is not None:
                E.ob(s, implies(and_(le(0, j), lt(j, last)), eq(arr.get(j), app(PTB, j))), "parser sees the decrypted bytes", "post", fn, ("P12", "P13"))
            r = g["hsres"]
            if r is None:
                E.ob(s, ne(code, 0), "parser error is reported", "post", fn, ("P12", "P09"))
                E.ob(s, len(upds) == 0 and len(sent) == 0, "parser error has no effect", "post", fn, ("P12", "P13"))
                E.ob(s, and_(eq(ex1, ex0), eq(ph1, ph0)), "parser error keeps the phase", "post", fn, ("P12", "P13"))
                continue
            e, ku, ct, n1 = r
            want = and_(ku, not_(e))
            E.ob(s, eq(ite(want, 1, 0), len(upds)), "key updated exactly when a key update completed", "post", fn, ("P12",))
            for lv, c in upds:
                E.ob(s, lv.cell == th.cell and lv.path[:1] == (("f", "in_connection_"),), "only the inbound key is updated", "post", fn, ("P12",))
                E.ob(s, eq(eq(code, 0), eq(c, 0)), "failure of the key update is reported", "post", fn, ("P12",))
            E.ob(s, or_(len(upds) > 0, eq(code, 0)), "a parsed handshake record is accepted", "post", fn, ("P12", "P13"))
            E.ob(s, eq(ex1, e), "remembers whether a handshake message is incomplete", "post", fn, ("P12", "P13"))
            good = eq(code, 0)
            must = and_(good, ct, ne(ph0, DONE), ge(n1, 5))
            sends(E, s, fn, sent, must, o, g)
            E.ob(s, implies(good, eq(ph1, ite(must, DONE, ite(and_(ct, eq(ph0, NOT_RECEIVED)), RECEIVING, ph0)))), "forwarding phase after a handshake record", "post", fn, ("P13",))
            E.ob(s, implies(not_(good), eq(ph1, ph0)), "forwarding phase kept on error", "post", fn, ("P13",))


def sends(E, s, fn, sent, must, o, g):
    P = ("P13",)
    E.ob(s, eq(ite(must, 1, 0), len(sent)), "tickets forwarded exactly when due, once", "post", fn, P)
    if len(sent) != 1:
        return
    opt, ident = sent[0]
    f = opt.f
    E.ob(s, and_(eq(f["connection_id"], o.f["connection_id_"]), deep_eq(f["handshaker_service_url"], o.f["handshaker_service_url_"]),
                 deep_eq(ident, o.f["local_identity_"])), "forwarded with the connection's own address, id and identity", "post", fn, P)
    E.ob(s, and_(deep_eq(f["channel_factory"], o.f["channel_factory_"]), deep_eq(f["channel_options"], o.f["channel_options_"])), "forwarded with the connection's channel", "post", fn, P)
    q = g.get("retrieved")
    tk = f["tickets"]
    E.ob(s, q is not None, "forwards the stored tickets", "post", fn, P)
    if q is None:
        return
    E.ob(s, and_(not_(tk.null), eq(tk.val.n, q)), "all stored tickets forwarded", "post", fn, P)
    i, j = fresh_int("ski"), fresh_int("skj")
    s = s.assume(le(0, i), lt(i, q))
    V = Pieces(E, "ticket", (i,), nullable=False)
    x = tk.val.get(i)
    E.ob(s, and_(not_(x.null), eq(x.val.n, V.total)), "every ticket has its full length", "post", fn, P)
    E.ob(s, implies(and_(le(0, j), lt(j, V.total)), eq(mod(x.val.get(j), 256), V.flat(j))), "every ticket equals the received message", "post", fn, P)


# -- Create, overhead, outbound update -----------------------------------------------
def create():
    E, t = engine("Create", ("P05", "P13", "P19"))
    st = State()
    fn = find1(t, NS + "::Create")
    tv, cs = fresh_int("tls"), fresh_int("suite")
    st.add(le(0, tv), le(tv, 255), le(0, cs), le(cs, 255))
    u64 = Ty("int", n=(64, False))
    cid, iseq, oseq = E.sym_int(u64, "cid"), E.sym_int(u64, "inseq"), E.sym_int(u64, "outseq")
    url = E.alloc(st, "url", E.sym(Ty("str"), "url"))
    idty = parse("s2a::s2a_options::S2AOptions::Identity", t)
    ident = E.sym(idty, "ident")
    isec, osec = E.sym(V8, "insecret"), E.sym(V8, "outsecret")
    il, ol = E.alloc(st, "insecret", isec), E.alloc(st, "outsecret", osec)
    snd, lg = Fn(fresh_bool("nosender"), "ticket_sender"), Fn(fresh_bool("nologger"), "logger")
    cf = UPtr(fresh_bool("nofactory"), Op(fresh_int("factory"), False, "factory"))
    co = UPtr(fresh_bool("noopts"), Op(fresh_int("copts"), False, "copts"))
    urlv = st.load(url)
    good = and_(lt(0, urlv.n), not_(lg.null), not_(snd.null), eq(tv, 1))
    for v, s in E.call(fn, t, None, [tv, cs, cid, url, ident, il, ol, iseq, oseq, snd, cf, co, lg], st):
        v, s = E.rv(v, s)
        for b, s1 in E.branch(s, eq(v.idx, 1)):
            if not b:
                E.ob(s1, ne(v.alts[0].code, 0), "failure is an error", "post", fn)
                E.ob(s1, or_(not_(good), "halffail" in s1.ghost), "fails only for invalid arguments or when a direction cannot be created", "post", fn)
                continue
            E.ob(s1, and_(good, "halffail" not in s1.ghost), "succeeds only for valid arguments", "post", fn)
            u = v.alts[1]
            E.ob(s1, not_(u.null), "crypter non-null", "post", fn)
            f = u.val.f
            for nm, seq, sec in (("in_connection_", iseq, isec), ("out_connection_", oseq, osec)):
                c = f[nm]
                E.ob(s1, not_(c.null), nm + " present", "post", fn)
                E.ob(s1, and_(eq(c.val.f["$cs"], cs), eq(c.val.f["$seq"], seq), same_arr(c.val.f["$sec"], sec)), nm + " has its own secret, sequence number and suite", "post", fn)
            E.ob(s1, and_(eq(f["connection_id_"], cid), deep_eq(f["handshaker_service_url_"], urlv), deep_eq(f["local_identity_"], ident)), "address, connection id and identity stored", "post", fn)
            E.ob(s1, and_(deep_eq(f["ticket_sender_function_"], snd), deep_eq(f["channel_factory_"], cf), deep_eq(f["channel_options_"], co)), "sender and channel stored", "post", fn)
            E.ob(s1, not_(f["close_notify_received_"]), "not closed initially", "post", fn, ("P10",))
            E.ob(s1, and_(not_(f["handshake_message_handler_"].null), not_(f["hs_message_handling_state_"].null)), "handler present", "post", fn)
            E.ob(s1, wf(u.val), "class invariant established", "post", fn, ("P12", "P13"))
            h, ph, ex = parts(u.val)
            E.ob(s1, and_(eq(ph, NOT_RECEIVED), not_(ex), not_(h["$ret"])), "no handshake message seen initially", "post", fn, ("P12", "P13"))
    return E


def small():
    """RecordOverhead and UpdateOutboundKey."""
    E, t = engine("RecordOverhead/UpdateOutboundKey", ("P08", "P12"))
    st = State()
    th, o = sym_obj(E, st, t)
    fn = find1(t, NS + "::RecordOverhead")
    for v, s in E.call(fn, t, th, [], st):
        v, s = E.rv(v, s)
        E.ob(s, eq(v, 22), "overhead is header, content type and tag", "post", fn, ("P08", "P14"))
    fn = find1(t, NS + "::UpdateOutboundKey")
    for v, s in E.call(fn, t, th, [], st):
        v, s = E.rv(v, s)
        u = s.ghost.get("upd", ())
        E.ob(s, len(u) == 1 and u[0][0].cell == th.cell and u[0][0].path[:1] == (("f", "out_connection_"),), "exactly the outbound key is updated", "post", fn, ("P12",))
        if u:
            E.ob(s, eq(v.code, u[0][1]), "its status is returned", "post", fn, ("P12",))
        E.ob(s, unchanged(o, s.load(th)), "nothing else changes", "post", fn, ("P12",))
    return E
