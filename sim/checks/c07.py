"""C07: the completion email can neither harm nor precede the results."""
import email
import re

from .. import config, make, monitors, oracle
from .c04 import enumerate_power

PROP = 'C07'
LEVEL = 'fault_enumeration'
CASES = {'quick': 1800, 'thorough': 9000}
RULE = ('case = configuration x mail failure (11 kinds) at an event of the mail conversation, alone, in '
        'pairs, or together with a stop or failing file call in the run; non-trivial = a mail failure or '
        'a fault before the email fired')

HOWS = ['refuse', 'unreach', 'dns', 'reset', 'pipe', 'timeout', 'eof', 'tls', 'garbage', '4xx', '5xx']
SPOTS = 40
HOSTS = ['simhost', 'a', 'node-17.cluster.example.org', 'cruncher 2', 'x' * 60, '10.0.0.7', 'a%sb',
         'höst', 'машина-3']
NEGATIVE = re.compile(r'fail|not |n\'t|error|unable|problem|unsent', re.I)


def gen(rng, i, tier):
    c = make.run_config(rng, frames=rng.randint(2, 6), periodic=.02,
                        schemes=('euler', 'euler', 'ab2', 'euler', 'rk4'))
    c['email'] = True
    c['temp'] = rng.choice([1, 2, 3, 120])
    if not oracle.due(c, c['every']):
        c['start'] = 0
    plan = []
    r = rng.random()
    if r < .08:
        c['email'] = False
    # the conversation is walked through failure by failure, event by event
    spot = dict(do='mail', how=HOWS[i % len(HOWS)], cls='mail',
                pos=round((i // len(HOWS) % SPOTS + .5) / SPOTS, 4))
    if r < .72:
        plan.append(spot)
        if r > .55:
            plan.append(dict(do='mail', how=rng.choice(HOWS), cls='mail',
                             pos=round(rng.random(), 4)))
    elif r < .82:
        plan.append(make.stop(rng, kinds=('kill', 'int', 'kill', 'power'),
                              classes=('mail', 'mail', 'final', 'any')))
    else:
        plan.append(dict(do='errno', errno=rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EROFS']),
                         cls=rng.choice(['final', 'final', 'final', 'unlink', 'rename', 'fsync', 'any']),
                         pos=round(rng.random(), 4), sticky=rng.random() < .6,
                         kinds=rng.choice([['write', 'open+', 'trunc'], ['write', 'open+', 'rename',
                                           'fsync', 'trunc', 'mkdir', 'unlink']])))
        if rng.random() < .3:
            plan.append(spot)
    return dict(config=c, plan=plan, again=rng.random() < .15, host=rng.choice(HOSTS),
                clock=rng.choice([1709286000.0, 1709286000.0, 951868795.0,
                                  float(rng.randrange(4 * 10 ** 9))]))


def says_sent(rec):
    for line in rec['out'].splitlines():
        if re.search(r'\bsent\b', line, re.I) and not NEGATIVE.search(line):
            return True
    return False


def well_formed(m, host, name):
    """What is wrong with an accepted message, or None."""
    data = m['data'].replace('\r\n', '\n')
    head, sep, body = data.partition('\n\n')
    if not sep:
        return 'it has no blank line between header and body'
    for line in head.split('\n'):
        if not re.match(r'[!-9;-~]+:|[ \t]', line):
            return 'the header line %r is malformed' % line[:80]
    msg = email.message_from_string(data)
    if msg.defects:
        return 'it is malformed: %r' % msg.defects
    for h in ('From', 'To', 'Subject'):
        if len(msg.get_all(h) or ()) != 1:
            return 'it has %d %s headers' % (len(msg.get_all(h) or ()), h)
    frm = email.utils.parseaddr(msg['From'])[1]
    if '@' not in frm or frm not in m['frm']:
        return 'its From header %r does not give the sender %r' % (msg['From'], m['frm'])
    to = [a for _, a in email.utils.getaddresses([msg['To']])]
    if not to or sorted(to) != sorted(x.strip('<>') .split('>')[0] for x in m['to']):
        return 'its To header %r does not give the recipients %r' % (msg['To'], m['to'])
    text = msg.get_payload(decode=True)
    text = text.decode('utf-8', 'replace') if text is not None else str(msg.get_payload())
    subject = str(email.header.make_header(email.header.decode_header(msg['Subject'])))
    if host not in text and host not in subject:
        return 'it does not name the host'
    if name not in text and name not in subject:
        return 'it does not name the results file %s' % name
    if not text.strip():
        return 'it has no body'
    return None


def judge(ctx, case, c, rec, good, old):
    """One process."""
    res = ctx.case
    w = ctx.world
    what = res.trace[-1]
    m = rec['mail']
    tried = [x for x in rec['notes'] if x[0] == 'mail_attempt']
    if rec['status'] == 'hang':
        res.bad('hang', 'the run waits for the mail server for ever (%s)' % what)
        return False
    if rec['status'] in ('cpu', 'budget', 'wall'):
        res.bad('stuck', 'the run ended with %s (%s)' % (rec['status'], what))
        return False
    if not c['email'] and tried:
        res.bad('unasked', 'the email is switched off, but a connection was made')
        return False
    if len(tried) > 1:
        res.bad('repeated', '%d connections to the mail server in one run (%s)' % (len(tried), what))
        return False
    if m and len(m['accepted']) > 1:
        res.bad('repeated', '%d messages in one run' % len(m['accepted']))
        return False
    for _, k, seen in tried:
        new = {p: seen[p] for p in config.results_in(seen) if p not in old}
        left = config.backups_in(seen)
        over = [p for p in config.results_in(seen) if p in old]
        if not new and not over:
            res.bad('early', 'the mail server was contacted before the results file existed (%s)' % what)
            return False
        for p, b in new.items():
            d = monitors.load_npz(b)
            e = 'is not complete' if d is None else oracle.diff(d, good)
            if e:
                res.bad('early', 'when the mail server was contacted, the results file %s' % e)
                return False
        if left:
            res.bad('early', 'when the mail server was contacted, the backup %s was still there' % left)
            return False
        for _, files in enumerate_power(w, w.journal[:len(w.journal) - len(rec['journal']) + k], 40):
            ctx.case.stats['power-loss outcomes at the first connection'] += 1
            d = [monitors.load_npz(files[p]) for p in config.results_in(files)]
            b = [p for p in config.backups_in(files) if monitors.load_npz(files[p]) is not None]
            # the last renaming may be undone, but then the backup is back too
            if any(x is None for x in d) or not (d or b or not oracle.backup_frames(c)):
                res.bad('early', 'a power loss while the mail server is contacted could lose the results')
                return False
    mail_only = all(f[1] == 'mail' and f[0].startswith('mail') for f in rec['fired'])
    if mail_only and not oracle.completed(rec):
        res.bad('status', 'the run ended with %s %s because of the mail server: %s'
                % (rec['status'], rec['code'], oracle.tail(rec)))
        return False
    if not oracle.completed(rec):
        return True
    if c['email'] and not tried and case['host'].isascii():
        res.bad('none', 'the run completed, but no attempt to send the email was made (%s)' % what)
        return False
    files = w.files()
    results = config.results_in(files)
    if not results:
        res.bad('results', 'a completed run left no results file (%s)' % what)
        return False
    for p in results:
        d = monitors.load_npz(files[p])
        e = 'is not complete' if d is None else oracle.diff(d, good)
        if e:
            res.bad('results', 'after the email the results file %s (%s)' % (e, what))
            return False
    if config.backups_in(files):
        res.bad('results', 'a completed run left its backup (%s)' % what)
        return False
    if not c['email']:
        if says_sent(rec):
            res.bad('words', 'the run says an email was sent, but it is switched off')
            return False
        return True
    firm = [x for x in m['accepted'] if not x.get('reply_lost')]
    open_ = [x for x in m['accepted'] if x.get('reply_lost') and not x.get('refused')]
    if says_sent(rec) and not firm and not open_:
        res.bad('words', 'the run says the email was sent, but the server did not accept it (%s)' % what)
        return False
    if firm and not says_sent(rec) and not [f for f in rec['fired'] if f[0] == 'int']:
        res.bad('words', 'the server accepted the email, but the run does not say it was sent (%s)' % what)
        return False
    new = [p for p in results if p not in old] or results
    for x in m['accepted']:
        es = [well_formed(x, case['host'], p.split('/')[-1][:-4]) for p in new]
        if all(es):
            res.bad('message', 'the message sent: %s' % es[0])
            return False
    return True


def run(case, ctx):
    c = case['config']
    res = ctx.case
    kw = dict(mail_watch=True, host=dict(name=case['host']))
    ref = oracle.clean(ctx, c, clock=dict(start=case['clock']), **kw)
    if ref is None:
        return
    rec0, good, name = ref
    if not judge(ctx, case, c, rec0, good, {}):
        return
    # a host name that mail cannot carry as it is may keep the message from being sent
    if c['email'] and case['host'].isascii() and not rec0['mail']['accepted']:
        res.bad('none', 'no message reached a working mail server: %s' % oracle.tail(rec0))
        return
    counts = oracle.counts_of(rec0)
    w = ctx.world
    w.reset(config.files_for(c))
    case['plan'] = [make.place(p, counts) for p in case['plan']]
    again = case['again'] and c['scheme'] != 'ab2' and c['minv'] == 1
    rec = ctx.run(config.spec_for(c, plan=case['plan'], clock=dict(start=case['clock']), **kw),
                  config.code(), 'run with mail failure')
    if rec['fired']:
        res.nontrivial = True
    if not judge(ctx, case, c, rec, good, {}):
        return
    res.extra['classes'] = [rec['status']] + [f[0] for f in rec['fired']]
    if again and rec['status'] != 'power':
        old = {p: b for p, b in w.files().items() if p in config.results_in(w.files())}
        rec = ctx.run(config.spec_for(c, clock=dict(start=case['clock'] + 90000), **kw),
                      config.code(), 'run repeated')
        judge(ctx, case, c, rec, good, old)


def smaller(case):
    if case['again']:
        yield dict(case, again=False)
    for p in make.smaller_list(case['plan']):
        yield dict(case, plan=p)
    for k, v in (('host', 'simhost'), ('clock', 1709286000.0)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for i, p in enumerate(case['plan']):
        if p.get('sticky'):
            yield dict(case, plan=case['plan'][:i] + [dict(p, sticky=False)] + case['plan'][i + 1:])
        if p.get('how') not in (None, 'reset'):
            yield dict(case, plan=case['plan'][:i] + [dict(p, how='reset')] + case['plan'][i + 1:])
        if p.get('nth', 0) > 0:
            for n in (0, p['nth'] // 2, p['nth'] - 1):
                yield dict(case, plan=case['plan'][:i] + [dict(p, nth=n)] + case['plan'][i + 1:])
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
