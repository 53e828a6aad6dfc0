"""A ledger in memory and the real program to act on it (see host/)."""
import json, subprocess, sys

SWAP, DEP, WD = 'swap', 'deposit_all_token_types', 'withdraw_all_token_types'
DEP1, WD1 = 'deposit_single_token_type_exact_amount_in', 'withdraw_single_token_type_exact_amount_out'
PRODUCT, PRICE, STABLE, OFFSET, LINEAR = 0, 1, 2, 3, 30
NOFEES = [0, 0, 0, 0, 0, 0, 0, 0]

class World:
    def __init__(self, binary):
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
        self.w = {}
    def ask(self, o):
        self.p.stdin.write(json.dumps(o) + '\n'); self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line: raise SystemExit('the program ended')
        return json.loads(line)
    def keys(self, names, bumps=()):
        return self.ask({'cmd': 'keys', 'names': list(names), 'bumps': list(bumps)})
    def tok(self, n, mint, own, amt, **more):
        self.w[n] = dict(k='tok', mint=mint, own=own, amt=str(amt), dlg='', dam='0', cls='', st='1', prog='TOK', **{})
        self.w[n].update({k: str(v) for k, v in more.items()})
    def mint(self, n, auth, sup, frz=''):
        self.w[n] = dict(k='mint', auth=auth, sup=str(sup), frz=frz, st='1', prog='TOK')
    def record(self, n, kind, par, fees, a, b, lp, am, bm, fee, tp='TOK', ver=1, ini=1):
        r = self.keys([tp, a, b, lp, am, bm, fee], [n])
        x = bytes([ver, ini, r['bumps'][n]]).hex()
        for k in (tp, a, b, lp, am, bm, fee): x += r['keys'][k]
        for v in fees: x += int(v).to_bytes(8, 'little').hex()
        x += bytes([kind]).hex()
        for v in (list(par) + [0, 0, 0, 0])[:4]: x += int(v).to_bytes(8, 'little').hex()
        assert len(x) == 648
        return x
    def pool(self, n, kind, par, a, b, supply, fees=NOFEES, holder='u', held=None):
        """a pool n with reserves a, b of mints mA, mB and all pool tokens with the holder"""
        s = n
        for m in ('mA', 'mB'): self.w.get(m) or self.mint(m, 'adm', 10 ** 15)
        self.tok('a' + s, 'mA', 'pda:' + n, a); self.tok('b' + s, 'mB', 'pda:' + n, b)
        self.mint('lp' + s, 'pda:' + n, supply)
        self.tok('f' + s, 'lp' + s, 'adm', 0); self.tok('u' + s, 'lp' + s, holder, supply if held is None else held)
        self.w[n] = dict(k='raw', prog='PROG', hex=self.record(n, kind, par, fees, 'a' + s, 'b' + s, 'lp' + s, 'mA', 'mB', 'f' + s))
    def user(self, u='u', a=10 ** 12, b=10 ** 12):
        self.tok(u + 'A', 'mA', u, a); self.tok(u + 'B', 'mB', u, b)
    def run(self, op, ac, args, sg=('u',), ro=(), **more):
        """one request; its effect on the ledger; (done?, error number)"""
        o = dict(cmd='run', mode='entry', op=op, accts=list(ac), sg=list(sg), ro=list(ro), args=[str(int(x)) for x in args],
                 fees=[], ck='0', cp=[], con={'on': False}, world={k: v for k, v in self.w.items() if k in ac})
        o.update(more)
        r = self.ask(o)
        for k, v in r.get('diff', {}).items():
            if v['k'] == 'raw': v = dict(k='raw', prog=v['prog'], hex=v['hex'])
            self.w[k] = v
        return r['ok'], int(r['code'])
    def amt(self, n): return int(self.w[n]['amt'])
    def sup(self, n): return int(self.w[n]['sup'])
    def fresh(self, n, a, b, holder='u', fee='adm'):
        """everything a new pool n needs but its record"""
        for m in ('mA', 'mB'): self.w.get(m) or self.mint(m, 'adm', 10 ** 15)
        self.tok('a' + n, 'mA', 'pda:' + n, a); self.tok('b' + n, 'mB', 'pda:' + n, b)
        self.mint('lp' + n, 'pda:' + n, 0)
        self.tok('f' + n, 'lp' + n, fee, 0); self.tok('u' + n, 'lp' + n, holder, 0)
        self.w[n] = dict(k='raw', prog='PROG', hex='00' * 324)
    def create(self, n, kind, par, fees=NOFEES, con=None, **k):
        """creation through the processor, for any curve and deployment constraints"""
        ac = [n, 'pda:' + n, 'a' + n, 'b' + n, 'lp' + n, k.pop('fee', 'f' + n), k.pop('dst', 'u' + n), 'TOK']
        return self.run('initialize', ac, [], **{**dict(sg=[n], mode='direct', fees=[str(x) for x in fees], ck=str(kind),
                        cp=[str(x) for x in (list(par) + [0] * 4)[:4]], con=con or {'on': False}), **k})
    def create_linear(self, n, par, **k):
        return self.run('initialize_linear_price', [n, 'pda:' + n, 'a' + n, 'b' + n, 'lp' + n, 'f' + n, 'u' + n, 'TOK'], par, **{**dict(sg=[n]), **k})
    def create_price(self, n, fees, price, **k):
        return self.run('initialize_constant_price', [n, 'pda:' + n, 'a' + n, 'b' + n, 'lp' + n, 'f' + n, 'u' + n, 'TOK'], list(fees) + [price], **{**dict(sg=[n]), **k})
    # the account lists of requests by user u on pool n
    def buy(self, x, n='P', u='u', least=0, **k):   # a in, b out
        return self.run(SWAP, [n, 'pda:' + n, u, u + 'A', 'a' + n, 'b' + n, u + 'B', 'lp' + n, 'f' + n, 'TOK'] + k.pop('host', []), [x, least], **{**dict(sg=[u]), **k})
    def sell(self, x, n='P', u='u', least=0, **k):
        return self.run(SWAP, [n, 'pda:' + n, u, u + 'B', 'b' + n, 'a' + n, u + 'A', 'lp' + n, 'f' + n, 'TOK'] + k.pop('host', []), [x, least], **{**dict(sg=[u]), **k})
    def deposit(self, x, ma=2 ** 64 - 1, mb=2 ** 64 - 1, n='P', u='u', **k):
        return self.run(DEP, [n, 'pda:' + n, u, u + 'A', u + 'B', 'a' + n, 'b' + n, 'lp' + n, 'u' + n, 'TOK'], [x, ma, mb], sg=[u], **k)
    def withdraw(self, x, ma=0, mb=0, n='P', u='u', src=None, **k):
        return self.run(WD, [n, 'pda:' + n, u, 'lp' + n, src or 'u' + n, 'a' + n, 'b' + n, u + 'A', u + 'B', 'f' + n, 'TOK'], [x, ma, mb], sg=[u], **k)
    def deposit1(self, x, t='A', least=0, n='P', u='u', **k):
        return self.run(DEP1, [n, 'pda:' + n, u, u + t, 'a' + n, 'b' + n, 'lp' + n, 'u' + n, 'TOK'], [x, least], sg=[u], **k)
    def withdraw1(self, x, t='A', most=2 ** 64 - 1, n='P', u='u', src=None, **k):
        return self.run(WD1, [n, 'pda:' + n, u, 'lp' + n, src or 'u' + n, 'a' + n, 'b' + n, u + t, 'f' + n, 'TOK'], [x, most], sg=[u], **k)
    def number(self, f, x, y=0, z=0):
        return self.ask(dict(cmd='num', f=f, x=str(x), y=str(y), z=str(z)))

def expect(what, cond):
    if not cond:
        print('BROKEN: ' + what)
        sys.exit(1)
    print('ok: ' + what)
