import json
import os
import re
import shutil
import subprocess
import time

from rustx import LostAnchor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')


def env():
    e = dict(os.environ)
    e.update({'HOME': '/root', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'RUSTC_WRAPPER': '',
              'RUST_BACKTRACE': '0'})
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    return e


def run(cmd, timeout, cwd=ROOT, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


# ---------------------------------------------------------------- native
def build_native():
    rc, out = run(['cargo', '+stable', 'build', '--offline', '--locked', '--manifest-path', os.path.join(ROOT, 'native', 'Cargo.toml'),
                   '--target-dir', os.path.join(BUILD, 'native')], 600)
    return rc, out


def native(prop, tier, seed):
    t0 = time.time()
    res = {'backend': 'native', 'name': 'bounded stand-in', 'violations': []}
    rc, out = build_native()
    if rc != 0:
        res.update(status='tool-limit', note='harness does not build: ' + out[-1500:], wall_s=time.time() - t0)
        print('  note: bounded stand-in not built\n' + out[-1500:])
        return res
    rep = os.path.join(BUILD, 'native-%s-%s.json' % (prop, tier))
    cur = os.path.join(BUILD, 'native-%s-current.txt' % prop)
    for f in [rep, cur] + ['%s.%d' % (cur, i) for i in range(8)]:
        if os.path.exists(f):
            os.unlink(f)
    limit = {'quick': 300, 'search': 240, 'thorough': 3000}[tier]
    rc, out = run([os.path.join(BUILD, 'native', 'debug', 'dxfv'), prop, tier, str(seed), rep, cur], limit, cwd=BUILD)
    if os.path.exists(rep) and rc == 0:
        res.update(json.load(open(rep)))
        res['status'] = 'ok'
    else:
        case = open(cur, errors='replace').read() if os.path.exists(cur) else ''
        what = 'timed out' if rc is None else 'process ended with status %s (crash or abort)' % rc
        hits = []
        for i in range(8):
            f = '%s.%d' % (cur, i)
            if os.path.exists(f):
                orc, oout = run([os.path.join(BUILD, 'native', 'debug', 'dxfv'), 'ONE', f], 40, cwd=BUILD)
                if orc != 0:
                    data = open(f, 'rb').read()
                    hits.append({'key': 'abort' if orc is not None else 'hang', 'input': data.hex(), 'message': 'loading this file (hex) %s %s' % ('does not end' if orc is None else 'ends the process with status %s' % orc, oout[-300:])})
        if hits:
            res['violations'] = hits
            res['status'] = 'ok'
        elif case:
            res['violations'] = [{'key': 'abort:' + case.split('\n')[0][:80], 'input': case, 'message': what + ' on this input\n' + out[-500:]}]
            res['status'] = 'ok'
        else:
            res.update(status='tool-limit', note=what + ' ' + out[-500:])
            print('  note: native run: ' + what + ' ' + out[-500:])
    res['wall_s'] = round(time.time() - t0, 2)
    return res


# ---------------------------------------------------------------- verus
def spec_text(name):
    return open(os.path.join(ROOT, 'specs', name)).read()


def scan_assumptions(text):
    found = []
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)', text):
        found.append('assumed contract (external_body) %s' % m.group(2))
    for m in re.finditer(r'assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]*?)\s*\]', text):
        found.append('assumed contract of %s' % m.group(1))
    for m in re.finditer(r'axiom\s+fn\s+(\w+)|broadcast\s+axiom\s+fn\s+(\w+)', text):
        found.append('axiom ' + (m.group(1) or m.group(2)))
    for m in re.finditer(r'\b(assume|admit)\s*\(', text):
        found.append('%s() in the proof text' % m.group(1))
    return found


TOOL = re.compile(r'not supported|not yet support|unsupported|Resource limit|rlimit|panicked at|internal error|error\[E\d+\]|mismatched types|cannot find|expected .* found|unresolved|no method named|Unexpected|does not have|is private|unknown start|must have a decreases|is not implemented', re.I)
VERIF_ERR = re.compile(r'^error: (postcondition not satisfied|precondition not satisfied|assertion failed|(?:loop )?invariant not satisfied.*|possible arithmetic underflow/overflow|possible division by zero|.*decreases.*not satisfied.*|unable to prove.*|recommendation not met.*|possible bit shift underflow/overflow|index out of bounds.*|.*might not be allowed at this .*|failed .*)', re.M)


def verus(prop, mod, tier):
    t0 = time.time()
    res = {'backend': 'verus', 'name': mod.__name__, 'obligations': 0, 'discharged': 0, 'failed': [], 'violations': []}
    d = os.path.join(BUILD, 'verus')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, mod.__name__ + '.rs')
    try:
        body, log, functions = mod.build(REPO, spec_text)
    except LostAnchor as e:
        res.update(status='tool-limit', note='lost anchor: %s' % e, wall_s=round(time.time() - t0, 2))
        print('  note: %s: lost anchor: %s (bounded stand-in applies)' % (mod.__name__, e))
        return res
    head = 'use vstd::prelude::*;\n' + getattr(mod, 'USES', '') + '\nverus! {\n'
    text = head + body + '\n} // verus!\nfn main() {}\n'
    open(path, 'w').write(text)
    opts = list(getattr(mod, 'OPTS', []))
    cmd = ['verus', '--triggers-mode', 'silent', '--num-threads', '8', '--multiple-errors', '5'] + opts + [path]
    canary = None
    if '/*CANARY*/' in text:
        # must-fail twin, in parallel: each canary asserts false where the contracts have been used
        cpath = os.path.join(d, mod.__name__ + '_canary.rs')
        open(cpath, 'w').write(text.replace('/*CANARY*/', 'assert(false);'))
        import threading
        box = []
        canary = threading.Thread(target=lambda: box.append(run(cmd[:-1] + [cpath], 420, cwd=d)))
        canary.start()
    rc, out = run(cmd, 420, cwd=d)
    if canary:
        canary.join()
    res['cmd'] = ' '.join(cmd)
    res['extraction_rewrites'] = log
    res['functions'] = functions
    res['trusted'] = ['Verus 0.2026.09.13 and its Z3', 'vstd'] + scan_assumptions(text)
    m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
    if rc is None or not m:
        res.update(status='tool-limit', note='verifier gave no verdict: ' + out[-1200:])
        print('  note: %s: no verdict from Verus (bounded stand-in applies)\n%s' % (mod.__name__, out[-1200:]))
    else:
        ok, bad = int(m.group(1)), int(m.group(2))
        res['obligations'], res['discharged'] = ok + bad, ok
        if bad == 0 and ok > 0:
            res['status'] = 'proved'
            if canary:
                crc, cout = box[0]
                cm = re.search(r'verification results:: (\d+) verified, (\d+) errors', cout)
                n = text.count('/*CANARY*/')
                res['canary'] = '%d of %d must-fail assertions failed' % (int(cm.group(2)) if cm else 0, n)
                if cm and int(cm.group(2)) < n:
                    res['status'] = 'vacuous'
                    res['note'] = 'a must-fail assertion was proved: the assumptions are contradictory'
        else:
            errs = [e for e in re.split(r'\n(?=error)', out) if e.startswith('error')]
            hard = [e for e in errs if VERIF_ERR.search(e)]
            if getattr(mod, 'ANCHORED', None) and not mod.ANCHORED():
                hard = []
            if hard and not any('Resource limit' in e or 'rlimit' in e for e in errs):
                res['status'] = 'failed'
                for e in hard[:8]:
                    res['failed'].append({'backend': 'verus', 'obligation': e.strip()[:900]})
            else:
                res['status'] = 'tool-limit'
                res['note'] = 'verifier could not decide: ' + out[-1200:]
                print('  note: %s: undecided by Verus (bounded stand-in applies)\n%s' % (mod.__name__, out[-800:]))
    res['wall_s'] = res['solver_s'] = round(time.time() - t0, 2)
    return res
