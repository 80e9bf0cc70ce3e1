"""Second opinion: every query that z3 answered with unsat (a discharged obligation or a pruned path) is exported as
SMT-LIB and put to cvc5 as well, up to a limit per contract."""
import subprocess
import z3


class Cross:
    def __init__(self, limit=40, tlimit_ms=20000):
        self.limit = limit; self.tlimit = tlimit_ms
        self.n = dict(agreed=0, disagreed=0, cvc5_unknown_or_unsupported=0, over_the_limit=0)

    def __call__(self, engine, *conds):
        if self.n['agreed'] + self.n['disagreed'] + self.n['cvc5_unknown_or_unsupported'] >= self.limit:
            self.n['over_the_limit'] += 1
            return True
        s = z3.Solver()
        s.add(engine.solver.assertions())
        for c in conds:
            s.add(c)
        text = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % self.tlimit, '--fp-exp'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=self.tlimit / 1000 + 10)
            out = p.stdout.strip().split('\n')[0] if p.returncode == 0 else 'error'
        except subprocess.TimeoutExpired:
            out = 'timeout'
        if out == 'unsat':
            self.n['agreed'] += 1
            return True
        if out == 'sat':
            self.n['disagreed'] += 1
            return False
        self.n['cvc5_unknown_or_unsupported'] += 1
        return True

    def stats(self):
        return self.n
