"""Does the contract notice wrong designs?  Mutates the design specifications and
explores each mutant with only the contract (Ok) as invariant.  A development
tool: python3 tools/specmut.py [Runner|Engine|Catacomb] [index]."""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vmodels
from vlib import SPEC, tlc

M = {
    'Runner': [
        ('started worker of a stopping id is kept', "die == loop.dying \\/ W[id].stopping", "die == loop.dying"),
        ('started worker of a dying runner is kept', "die == loop.dying \\/ W[id].stopping", "die == W[id].stopping"),
        ('stop does not clear start', "[e EXCEPT !.stopping = TRUE, !.start = FALSE, !.w = 0]", "[e EXCEPT !.stopping = TRUE, !.w = 0]"),
        ('finished worker stays current', "W' = [W EXCEPT ![id].w = 0]\n", "W' = W\n"),
        ('no delay', "![c].until = now + Delay", "![c].until = now"),
        ('longer delay', "![c].until = now + Delay", "![c].until = now + Delay + Delay"),
        ('norestart is restarted', "\\/ e.cls = \"norestart\" \\/ ~x.start", "\\/ ~x.start"),
        ('id started twice', "ELSE IF Known(id) THEN K' = Wake([K EXCEPT ![c].pc = \"reply\", ![c].res = \"exists\"]) /\\ UNCHANGED <<W, G>>\n", ""),
        ('start while dying', "IF loop.dying THEN K' = Wake([K EXCEPT ![c].pc = \"reply\", ![c].res = \"ok\"]) /\\ UNCHANGED <<W, G>>\n     ELSE", ""),
        ('last fatal error wins', "better == loop.fin = NoErr \\/ (More /\\ e.rank > loop.fin.rank)", "better == TRUE"),
        ('fatal errors during shutdown are ignored', "!.fin = fin] ELSE", "!.fin = loop.fin] ELSE"),
        ('a fatal error does not kill the others', "/\\ W' = KW(W, Ids) /\\ I' = KI(I, W, Ids) /\\ Emit(KEvs(W, Ids))\n  /\\ loop' = [loop EXCEPT !.pc = \"idle\", !.dying = TRUE]", "/\\ W' = W /\\ I' = I /\\ Quiet\n  /\\ loop' = [loop EXCEPT !.pc = \"idle\", !.dying = TRUE]"),
        ('Kill does not kill the workers', "/\\ W' = KW(W, Ids) /\\ I' = KI(I, W, Ids) /\\ Emit(KEvs(W, Ids))\n  /\\ loop' = [pc", "/\\ W' = W /\\ I' = I /\\ Quiet\n  /\\ loop' = [pc"),
        ('loop leaves at once when dying', "loop.pc = \"idle\" /\\ loop.dying /\\ \\A id \\in Ids : ~Known(id)\n  /\\ loop'", "loop.pc = \"idle\" /\\ loop.dying\n  /\\ loop'"),
        ('waiting Worker is not woken by removal', "/\\ G' = [G EXCEPT ![c].pc = \"none\"]\n               /\\ loop' = loop\n               /\\ K' = Wake(K)", "/\\ G' = [G EXCEPT ![c].pc = \"none\"]\n               /\\ loop' = loop\n               /\\ K' = K"),
        ('waiting Worker is not woken by a start', "/\\ G' = [G EXCEPT ![c].pc = \"run\"]\n  /\\ K' = Wake(K)", "/\\ G' = [G EXCEPT ![c].pc = \"run\"]\n  /\\ K' = K"),
        ('StopAndRemoveWorker returns at once', "K[c].pc = \"done?\" /\\ K[c].of \\in removed", "K[c].pc = \"done?\""),
        ('StopAndRemoveWorker forgets the error', "Ret(c, \"ok\", I[K[c].w].err.code, 0)", "Ret(c, \"ok\", \"nil\", 0)"),
        ('abort does not end StopAndRemoveWorker', "/\\ K[c].pc = \"done?\" /\\ K[c].ab\n", "/\\ K[c].pc = \"done?\" /\\ K[c].ab /\\ FALSE\n"),
        ('report shows the wrong state', "st |-> IF W[id].w # 0 THEN \"started\"", "st |-> IF TRUE THEN \"started\""),
        ('clean end is restarted', "(e.cls = \"nil\" /\\ ~x.stopping) \\/", "FALSE \\/"),
    ],
    'Engine': [
        ('dependents are not bounced on start', "Bounce([S0 EXCEPT !.Cur[x] = [@ EXCEPT !.n = n, !.starting = FALSE, !.cnt = @ + 1, !.at = now]], x, fz)", "[S0 EXCEPT !.Cur[x] = [@ EXCEPT !.n = n, !.starting = FALSE, !.cnt = @ + 1, !.at = now]]"),
        ('dependents are not bounced on stop', "Sc == IF i.n # 0 THEN Bounce(Sb, x, fz) ELSE Sb", "Sc == Sb"),
        ('dependents are bounced when a start fails', "Sc == IF i.n # 0 THEN Bounce(Sb, x, fz) ELSE Sb", "Sc == Bounce(Sb, x, fz)"),
        ('started but stopping worker is registered', "S == IF i.stopping \\/ Dying THEN KillW(S0, n)", "S == IF Dying THEN KillW(S0, n)"),
        ('a stopped worker is not restarted', "Sb == CASE i.stopping -> ReqStart(Sa, x, BounceDelay, fz)\n                 [] e.cls", "Sb == CASE e.cls"),
        ('missing is retried', "e.cls \\in {\"nil\", \"M\", \"aborted\"} -> Sa", "e.cls \\in {\"nil\", \"aborted\"} -> Sa"),
        ('bounce uses the error delay', "[] e.cls = \"B\" -> ReqStart(Sa, x, BounceDelay, fz)", "[] e.cls = \"B\" -> ReqStart(Sa, x, ErrDelay, fz)"),
        ('uninstall keeps the name', "[] e.cls = \"U\" -> [Sa EXCEPT !.M[x] = Nil, !.Cur[x] = Nil, !.D", "[] e.cls = \"U\" -> [Sa EXCEPT !.D"),
        ('uninstall keeps it as a dependent', ", !.D = [nm \\in Names |-> Without(Sa.D[nm], x)]]", "]"),
        ('errors are not counted', "THEN i.errs + 1 ELSE 1", "THEN 1 ELSE 1"),
        ('errors are counted for ever', "IF i.at < 0 \\/ now - i.at < Reset THEN", "IF TRUE THEN"),
        ('missing does not reset the count', "[] ab \\/ e.raw = \"M\" -> 1", "[] ab \\/ e.raw = \"M\" -> i.errs"),
        ('cycles are accepted', "fits == ~In(x) /\\ ~Cyclic(E)", "fits == ~In(x)"),
        ('duplicate names are accepted', "fits == ~In(x) /\\ ~Cyclic(E)", "fits == ~Cyclic(E)"),
        ('first fatal error wins', "worst = NoErr \\/ e.rank > worst.rank", "worst = NoErr"),
        ('last fatal error wins', "worst = NoErr \\/ e.rank > worst.rank", "TRUE"),
        ('fatal errors do not stop the engine', "t == IF fatal /\\ tomb = \"alive\" THEN \"dying\" ELSE tomb", "t == tomb"),
        ('engine ends without waiting for starts', "Stopped(i) == i.n = 0 /\\ ~i.starting", "Stopped(i) == i.n = 0"),
        ('stop does not cancel the context', "!.Cur[x].stopping = TRUE, !.G[i.g].canc = TRUE]", "!.Cur[x].stopping = TRUE]"),
        ('Kill does not stop the workers', "IF T.Cur[x] = Nil THEN T ELSE ReqStop(T, x)", "T"),
        ('delay is not interrupted', "/\\ G[g].pc = \"delay\" /\\ Gone(g)\n", "/\\ G[g].pc = \"delay\" /\\ Gone(g) /\\ FALSE\n"),
        ('snapshot is taken late', "snap = 0", "snap = 0"),
        ('report: starting is shown as stopped', "CASE i.starting -> \"starting\"", "CASE i.starting -> \"stopped\""),
        ('metrics count twice', "[met EXCEPT ![x] = @ + 1]", "[met EXCEPT ![x] = @ + 2]"),
        ('a worker that was delivered during shutdown is not killed', "LET S == KillW(S0, G[g].n) IN I' = S.I /\\ Emit(S.evs)", "I' = I /\\ Quiet"),
    ],
    'Catacomb': [
        ('clean end kills the catacomb', "IF w[n].err.eff = \"nil\" THEN \"done\" ELSE \"kill\"", "\"kill\""),
        ('failed worker does not kill the catacomb', "IF w[n].err.eff = \"nil\" THEN \"done\" ELSE \"kill\"", "\"done\""),
        ('workers are not stopped', "/\\ w[n].g2 = \"sel\" /\\ Dying\n", "/\\ w[n].g2 = \"sel\" /\\ Dying /\\ FALSE\n"),
        ('dead before the workers are', "/\\ wk.pc = \"wg\" /\\ Idle\n", "/\\ wk.pc = \"wg\"\n"),
        ('dead before g2 is done', "Idle == lst # \"run\" /\\ lst # \"got\" /\\ \\A n \\in DOMAIN w : w[n].g1 \\in {\"no\", \"done\"} /\\ w[n].g2 \\in {\"no\", \"done\"}", "Idle == \\A n \\in DOMAIN w : w[n].g1 \\in {\"no\", \"done\"} /\\ w[n].g2 \\in {\"no\", \"done\"}"),
        ('last error wins', "reason' = IF reason \\in {\"alive\", \"nil\"} THEN eff ELSE reason", "reason' = eff"),
        ('nil is final', "reason' = IF reason \\in {\"alive\", \"nil\"} THEN eff ELSE reason", "reason' = IF reason = \"alive\" THEN eff ELSE reason"),
        ('own ErrDying counts', "IF eff = \"none\" THEN UNCHANGED <<tomb, reason>>\n  ELSE", "IF FALSE THEN UNCHANGED <<tomb, reason>>\n  ELSE"),
        ('foreign errors count as they are', "k = \"for\" -> [k |-> k, eff |-> \"bad\", obs |-> \"foreign\"]", "k = \"for\" -> [k |-> k, eff |-> \"nil\", obs |-> \"foreign\"]"),
        ('Kill of a dead catacomb counts', "![c].pc = IF tomb = \"dead\" THEN \"ret\" ELSE \"do\"]", "![c].pc = \"do\"]"),
        ('failed Invoke leaves its workers', "IF i > Len(K[c].ns) THEN", "IF TRUE THEN"),
        ('failed Invoke does not wait', "K[c].pc = \"stopw\" /\\ w[K[c].ns[K[c].i]].over\n", "K[c].pc = \"stopw\"\n"),
        ('failed Add does not wait', "K[c].pc = \"stopw\" /\\ w[K[c].ns[1]].over\n", "K[c].pc = \"stopw\"\n"),
        ('Invoke works twice', "IF K[c].valid /\\ ~dirty", "IF K[c].valid"),
        ('invalid plans work', "IF K[c].valid /\\ ~dirty", "IF ~dirty"),
        ('Add drops the worker', "/\\ w' = [w EXCEPT ![lw].g1 = \"wait\", ![lw].g2 = \"sel\"]", "/\\ w' = w"),
        ('Add works while dying without a listener', "K[c].op = \"add\" /\\ K[c].pc = \"start\" /\\ lst = \"run\"\n  /\\ lst' = \"got\"", "K[c].op = \"add\" /\\ K[c].pc = \"start\"\n  /\\ lst' = \"got\""),
        ('the work function does not end the catacomb', "/\\ wk.pc = \"kill\" /\\ TombKill(wk.err.eff)", "/\\ wk.pc = \"kill\" /\\ TombKill(\"none\")"),
        ('a panic is lost', "k = \"P\" -> [k |-> k, eff |-> \"P\", obs |-> \"P\"]", "k = \"P\" -> [k |-> k, eff |-> \"P\", obs |-> \"P\"]"),
        ('g2 leaves when g1 is waiting', "w[n].g2 = \"sel\" /\\ w[n].g1 = \"done\"", "w[n].g2 = \"sel\" /\\ w[n].g1 = \"wait\""),
    ],
}


def main():
    mods = sys.argv[1:2] or list(M)
    for mod in mods:
        text = open(os.path.join(SPEC, mod + '.tla')).read()
        for j, (name, old, new) in enumerate(M[mod]):
            if len(sys.argv) > 2 and j != int(sys.argv[2]):
                continue
            if old == new:
                continue
            if text.count(old) != 1:
                print(mod, j, name, ': the text occurs %d times' % text.count(old), flush=True)
                continue
            d = tempfile.mkdtemp(prefix='specmut')
            for f in os.listdir(SPEC):
                shutil.copy(os.path.join(SPEC, f), d)
            with open(os.path.join(d, mod + '.tla'), 'w') as f:
                f.write(text.replace(old, new))
            hit = None
            for p in sorted(vmodels.MODELS):
                ms = vmodels.MODELS[p]
                for i, m in enumerate(ms if isinstance(ms, list) else [ms]):
                    if m['module'] != mod or hit:
                        continue
                    for kind in ('sim', 'mc'):
                        b = m[kind]
                        if b is None or hit:
                            continue
                        c = vmodels.KINDS[mod][0](m, b[0], b[1], kind == 'mc')
                        c = re.sub('INVARIANTS .*', 'INVARIANTS Ok', c)
                        cf = os.path.join(d, 'x.cfg')
                        open(cf, 'w').write(c)
                        rc, o = tlc(os.path.join(d, mod + '.tla'), cf, d, timeout=60, workers=4,
                                    extra=('-simulate', 'num=150', '-depth', '300', '-seed', '7') if kind == 'sim' else ())
                        if 'Invariant Ok is violated' in o:
                            rules = re.findall(r'<<"(C\d+)",\s*"([^"]*)"', o)
                            hit = '%s/%d %s: %s' % (p, i, kind, sorted(set(rules))[:4])
                        elif 'Error:' in o:
                            hit = '%s/%d %s: ERROR %s' % (p, i, kind, o[o.index('Error:'):][:300])
            print(mod, j, name, '->', hit or 'NOT NOTICED', flush=True)
            shutil.rmtree(d)


main()
