"""C24: debug logging never changes the result."""
from .. import harness, opgen
from ..drawing import diff
from ..harness import Violation

AREAS = ['MAIN', 'REGEXP', 'PARSER', 'LEXER', 'DISCOVERY', 'ALL']


class Check(harness.Check):
    ID = 'C24'
    QUICK = 3200
    THOROUGH = 120000
    VARIANTS = ('plain', 'asan')
    RULE = ('random operation (draw, remove, mend, autodetection, list, details, query, rejected configurations and options) on random '
            'text and well-formed, damaged or shipped configurations, run without and with logging of random sets of areas, by the '
            'normal and by the instrumented program: output and status must be the same, the messages of the plain run must still be '
            'there, and nothing but messages goes to standard error; plain runs of valid input print no messages; non-trivial: the '
            'run produced output and log lines')
    NEEDS = dict(compared=5000, log_lines=100000, draw=500, remove=300, mend=150, list=150, query=100, rejected=200, silent=300, regex_rules=150)
    MIN_NONTRIVIAL = 0.5

    def case(self, c):
        rng = c.rng
        o = opgen.operation(c)
        args, text, env, op = o.args, o.text, o.env, o.kind
        if o.rules:
            c.count('regex_rules')
        base = c.boxes(args, text, env=env)
        if base.rc == 0 and o.valid and o.clean and not o.detect:
            if base.err:
                raise Violation('successful run printed messages: %r' % base.err[:300], key='messages')
            c.count('silent')
        c.count(op if op in ('draw', 'remove', 'mend', 'list', 'query') else 'other')
        if base.rc:
            c.count('rejected')
        lines = 0
        for variant in ('plain', 'plain', 'asan'):
            n = rng.choice([1, 1, 2, 3])
            areas = rng.sample(AREAS, n) + self.blanks(rng)
            rng.shuffle(areas)
            areas = ','.join(rng.choice([a, a.lower(), ' ' + a, a + ' ']) for a in areas) if rng.random() < 0.6 else 'all'
            x = rng.choice([['-x', 'debug:' + areas], ['--extra=debug:' + areas], ['-xdebug:' + areas], ['-x', 'debug']])
            a = x + args if rng.random() < 0.8 else args + x
            r = c.boxes(a, text, variant, env)
            if (r.rc, r.out) != (base.rc, base.out):
                raise Violation('with %r: status %d instead of %d, %s'
                                % (x, r.rc, base.rc, diff(base.out.decode('utf-8', 'replace'), r.out.decode('utf-8', 'replace'))), key='result')
            # what is said without logging is said with logging, too, in the same order
            got = bare(r.err, *c.check.bins.values()).split(b'\n')
            it = iter(got)
            for m in bare(base.err, *c.check.bins.values()).split(b'\n'):
                if not any(m == g or m and g.endswith(m) for g in it):
                    raise Violation('with %r: the message %r is missing' % (x, m[:200]), key='lost')
            lines += len(got) - base.err.count(b'\n') - 1
            c.count('compared')
        c.count('log_lines', lines)
        c.nontrivial = bool(base.out) and lines > 0
        c.seen(op, base.rc, lines.bit_length())

    def blanks(self, rng):
        return [rng.choice(['', ' ', '  ', '\t']) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.15 else []


def bare(messages, *names):
    """messages without the path of the program (getopt's own begin with it)"""
    for n in names:
        messages = messages.replace(n.encode() + b':', b'boxes:')
    return messages
