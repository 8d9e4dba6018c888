"""Replays the Python bindings against the library called directly. argv: folder-with-built-modules seed seconds.
The calls run in a child process which announces each case, so a crash is attributed to its input."""
import sys, os, subprocess, random, time, hashlib
D_, SEED, SECS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
def parent():
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), D_, str(SEED), str(SECS), 'child'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try: out, err = p.communicate(timeout=SECS + 200)
    except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate(); print('FAIL no answer'); print('INPUT ' + last(out)); sys.exit(3)
    txt = out.decode('utf8', 'replace')
    if p.returncode == 0:
        seen = [l[5:] for l in txt.splitlines() if l.startswith('CASE ')]
        print('CASES %d\nDISTINCT %d' % (len(seen), len(set(seen))))
        for s in seen[:4]: print('SAMPLE ' + s[:400])
        return
    if p.returncode == 3: print(txt[txt.rfind('FAIL '):]); sys.exit(3)
    if p.returncode == 4: print(txt[-300:]); print(err.decode('utf8', 'replace')[-600:]); sys.exit(4)
    if 'CASE ' not in txt: print(err.decode('utf8', 'replace')[-600:]); sys.exit(4)
    print('FAIL crash: interpreter ended with %d' % p.returncode); print('INPUT ' + last(out)); print(err.decode('utf8', 'replace')[-3000:]); sys.exit(3)
def last(out): return next((l[5:] for l in out.decode('utf8', 'replace').splitlines()[::-1] if l.startswith('CASE ')), '')
def child():
    import ctypes as C, threading
    sys.path.insert(0, D_)
    import _chiavdf as M
    L = C.CDLL(os.path.join(D_, 'pylib.so'))
    u64, sz = C.c_uint64, C.c_size_t
    L.l_create.argtypes = [C.c_char_p, sz, C.c_int, C.c_char_p, sz]
    L.l_verify1.argtypes = [C.c_char_p] + [C.c_char_p, sz] * 3 + [u64]
    L.l_verify.argtypes = [C.c_char_p, C.c_char_p, C.c_char_p, sz, u64, u64, u64]
    L.l_seedverify.argtypes = [C.c_char_p, sz, C.c_int, C.c_char_p, C.c_char_p, sz, u64, u64]
    L.l_withb.argtypes = [C.c_char_p, C.c_char_p, C.c_char_p, C.c_char_p, sz, u64, u64, C.POINTER(C.c_int), C.c_char_p, sz]
    L.l_getb.argtypes = [C.c_char_p, C.c_char_p, C.c_char_p, sz, u64, u64, C.c_char_p, sz]
    L.l_prove.argtypes = [C.c_char_p, sz, C.c_char_p, sz, C.c_int, u64, C.c_char_p, C.c_char_p, sz]
    L.l_deser.argtypes = [C.c_char_p, C.c_char_p, sz, C.c_int, C.c_char_p, C.POINTER(sz), C.c_char_p, C.POINTER(sz), sz]
    buf = C.create_string_buffer(1 << 16); CAP = 1 << 16
    def b(n): return buf.raw[:n]
    EXC = object()
    R = random.Random(SEED)
    # another thread that keeps running Python code while the calls go on
    stop = []
    def spin():
        while not stop: sum(range(50)); time.sleep(0.0005)
    th = threading.Thread(target=spin, daemon=True); th.start()
    def call(f, *a):
        try: return f(*a)
        except (RuntimeError, ValueError, IndexError, OverflowError, MemoryError): return EXC
    def show(v): return v.hex() if isinstance(v, bytes) else repr(v)
    def case(name, args, want):
        print('CASE %s(%s)' % (name, ', '.join(show(a) for a in args)), flush=True)
        before = [bytes(bytearray(a)) if isinstance(a, bytes) else a for a in args]
        got = call(getattr(M, name), *args)
        w = want()
        if before != list(args): bad('an argument was modified', name, args)
        if got is EXC and w is EXC: return EXC
        if (got is EXC) != (w is EXC) or got != w: bad('binding answers %s, the library %s' % ('exception' if got is EXC else show(got), 'exception' if w is EXC else show(w)), name, args)
        return got
    def bad(what, name, args): print('\nFAIL %s\nINPUT %s(%s)' % (what, name, ', '.join(show(a) for a in args)), flush=True); os._exit(3)
    def n(r): return EXC if r < 0 else bool(r)
    def create(s, bits): return case('create_discriminant', [s, bits], lambda: (lambda r: EXC if r < 0 else b(r).decode())(L.l_create(s, len(s), bits, buf, CAP)))
    def prove(s, x, bits, it, path=''): return case('prove', [s, x, bits, it, path], lambda: (lambda r: EXC if r < 0 else b(r))(L.l_prove(s, len(s), x, len(x), bits, it, path.encode(), buf, CAP)))
    def ver1(D, x, y, p, it): return case('verify_wesolowski', [D, x, y, p, it], lambda: n(L.l_verify1(D.encode(), x, len(x), y, len(y), p, len(p), it)))
    def ver(D, x, p, it, bits, d): return case('verify_n_wesolowski', [D, x, p, it, bits, d], lambda: EXC if len(x) != 100 else n(L.l_verify(D.encode(), x, p, len(p), it, bits, d)))
    def sver(s, bits, x, p, it, d): return case('create_discriminant_and_verify_n_wesolowski', [s, bits, x, p, it, d], lambda: EXC if len(x) != 100 else n(L.l_seedverify(s, len(s), bits, x, p, len(p), it, d)))
    def withb(D, B, x, p, it, d):
        def w():
            if len(x) != 100: return EXC
            ok = C.c_int(0); r = L.l_withb(D.encode(), B.encode(), x, p, len(p), it, d, C.byref(ok), buf, CAP)
            return EXC if r < 0 else (bool(ok.value), b(r))
        return case('verify_n_wesolowski_with_b', [D, B, x, p, it, d], w)
    def getb(D, x, p, it, d): return case('get_b_from_n_wesolowski', [D, x, p, it, d], lambda: EXC if len(x) != 100 else (lambda r: EXC if r < 0 else b(r).decode())(L.l_getb(D.encode(), x, p, len(p), it, d, buf, CAP)))
    def deser(D, x, strict=True, dflt=False):
        def w():
            if len(x) != 100: return EXC
            a, bb = C.create_string_buffer(600), C.create_string_buffer(600); na, nb = sz(0), sz(0)
            r = L.l_deser(D.encode(), x, len(x), int(strict), a, C.byref(na), bb, C.byref(nb), 600)
            return EXC if r < 0 else (a.raw[:na.value], bb.raw[:nb.value])
        return case('bqfc_deserialize', [D, x] + ([] if dflt else [strict]), w)
    GEN = b'\x08' + bytes(99)
    def mutate(p):
        k = R.randrange(5)
        if k == 0 and p: i = R.randrange(len(p)); return p[:i] + bytes([p[i] ^ (1 << R.randrange(8))]) + p[i + 1:]
        if k == 1: return p[:R.randrange(len(p) + 1)]
        if k == 2: return p + bytes(R.randrange(1, 5))
        if k == 3: return p[:100] + R.randbytes(max(0, len(p) - 100))
        return R.randbytes(len(p))
    end = time.time() + SECS
    k = 0
    for bad_x in (b'', b'\x08', b'\x08' + bytes(98), b'\x08' + bytes(100)):
        D = create(b'seed', 256); P = prove(b'seed', GEN, 256, 20)
        ver(D, bad_x, P, 20, 256, 0); sver(b'seed', 256, bad_x, P, 20, 0); withb(D, '1', bad_x, P, 20, 0); getb(D, bad_x, P, 20, 0); deser(D, bad_x); prove(b'seed', bad_x, 256, 20); ver1(D, bad_x, P[:100], P[100:], 20); ver1(D, GEN, bad_x, P[100:], 20); ver1(D, GEN, P[:100], bad_x, 20)
    for D in ('1', '9', '17', '0', '-3', '-4', '-7', '-8', '12', '1000000007'):
        deser(D, GEN); deser(D, b'\x04' + bytes(99), False); ver1(D, GEN, GEN, GEN, 3); ver(D, GEN, GEN + GEN, 0, 100, 0); withb(D, '3', GEN, GEN, 1, 0); getb(D, GEN, GEN, 1, 0)
    while time.time() < end:
        k += 1
        s = R.choice([b'', b'\0\0\0', b'\0a\0b', b'seed', R.randbytes(R.randrange(3, 70)), R.randbytes(32), b'\xff\x80\0' + R.randbytes(4)]); bits = R.choice([8, 64, 128, 256, 512, 512, 1024, 0, -8, 13, 1032, 2 ** 31 - 1, -2 ** 31]) if R.random() < .3 else R.choice([128, 256, 512])
        D = create(s, bits)
        if D is EXC: sver(s, bits, GEN, bytes(200), 5, 0); prove(s, GEN, bits, 3); continue
        it = R.choice([0, 1, 2, 33, 100, 500, R.randrange(1500)])
        x = R.choice([GEN, GEN, b'\x04' + bytes(99)])
        P = prove(s, x, bits, it)
        if P is EXC or len(P) != 200: continue
        y, pf = P[:100], P[100:]
        b1 = getb(D, x, P, it, 0)
        ver1(D, x, y, pf, it); ver1(D, x, y, pf, it + 1); ver1(D, y, x, pf, it); ver1(D, x, pf, y, it)
        ver(D, x, P, it, bits, 0); ver(D, x, P, it + 1, bits, 0); ver(D, x, P, it, bits, 1); ver(D, y, P, it, bits, 0); ver(D, x, P, it, R.choice([0, bits + 1, 1 << 63]), 0)
        sver(s, bits, x, P, it, 0); sver(s + b'x', bits, x, P, it, 0); sver(s, bits, x, P, it + 1, 0); sver(s, bits, x, mutate(P), it, R.choice([0, 1, 2 ** 64 - 1]))
        if b1 is not EXC: withb(D, b1, x, pf, it, 0); withb(D, hex(int(b1, 0) + 2), x, pf, it, 0); withb(D, b1, y, pf, it, 0); withb(D, b1, x, pf, it + 1, 0)
        getb(D, x, pf, it, 0); getb(D, x, P, R.choice([0, it, 2 ** 64 - 1]), R.choice([0, 1, 5]))
        # a two-segment proof
        P2 = prove(s, y, bits, it + 3)
        if P2 is not EXC and len(P2) == 200 and b1 is not EXC:
            q = P2 + it.to_bytes(8, 'big') + int(b1, 0).to_bytes(33, 'big') + pf
            ver(D, x, q, 2 * it + 3, bits, 1); ver(D, x, q, 2 * it + 4, bits, 1); sver(s, bits, x, q, 2 * it + 3, 1); getb(D, x, q, 2 * it + 3, 1)
            b2 = getb(D, y, P2, it + 3, 0)
            if b2 is not EXC: withb(D, b2, x, q[100:], 2 * it + 3, 1)
            ver(D, x, mutate(q), 2 * it + 3, bits, 1)
        for z in (x, y, pf, mutate(y)):
            deser(D, z); deser(D, z, True); deser(D, z, False); deser(D, z, dflt=True)
        ver(D, x, mutate(P), it, bits, R.choice([0, 0, 1])); ver1(D, mutate(x), y, pf, it)
        prove(s, x, bits, it, '/nonexistent/file' if R.random() < .5 else '/dev/null')
    stop.append(1)
try: child() if sys.argv[4:] else parent()
except SystemExit: raise
except Exception:
    import traceback; traceback.print_exc(); sys.exit(4)
