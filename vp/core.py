"""
Runner for property checks.

A check module (checks/Cxx.py) defines

    ID        property id
    RULE      text: how cases are made, what makes one non-trivial
    ASSUMES   list of assumption texts (optional)
    SUBS      list of Sub(name, strategy, run, quick, thorough)

Each Sub generates JSON-able cases with Hypothesis and decides each case with `run(case, ctx)`.  `run` raises Violation
(or any exception that passed through code in the repository under test) if the property is broken.
Exceptions raised by the harness alone are harness errors (exit code 2), never violations.
"""
import contextlib
import dataclasses
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import time
import traceback
from typing import Any, Callable

from . import boot

WORKERS = int(os.environ.get('VP_WORKERS', '8'))
SHRINK_SECONDS = float(os.environ.get('VP_SHRINK_SECONDS', '45'))
# Safety net only: reaching it means that fewer cases are explored, never a violation.
BUDGET = {'quick': 420.0, 'thorough': 3.0 * 3600}
CPU_LIMIT_PER_CASE = 90
WALL_LIMIT_PER_CASE = 150
# For code that cannot be interrupted by signals (stuck inside of C libraries).
KILL_AFTER = 210


class Violation(Exception):
    """The property under check does not hold."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class NotTerminated(BaseException):
    """The code under test used an absurd amount of time for one case."""


class _Stop(BaseException):
    """Ends the Hypothesis run (shrinking budget exhausted)."""


class Skip(Exception):
    """Case excluded by construction (known finding, unsupported by an external tool); counted."""


@dataclasses.dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any, 'Ctx'], None]
    quick: int
    thorough: int


def check(condition, message, *args, key=None):
    if not condition:
        raise Violation(message % args if args else message, key=key)


def brief(value, limit=300):
    text = repr(value)
    return text if len(text) <= limit else text[: limit - 20] + f'...<{len(text)} chars>'


def check_equal(actual, expected, what, key=None):
    if actual != expected:
        raise Violation(f'{what}: got {brief(actual)} but expected {brief(expected)}', key=key)


class Ctx:
    """Per-case context."""

    def __init__(self, tmp, tier):
        self.tmp = tmp
        self.tier = tier
        self.labels = set()
        self.is_nontrivial = False
        self._cleanups = []
        self.stack = contextlib.ExitStack()

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    def path(self, *names):
        return os.path.join(self.tmp, *names)

    def keep(self, resource):
        """Register a context manager that will be exited at the end of the case."""
        self.stack.push(_suppressing_exit(resource))
        return resource


def _suppressing_exit(resource):
    def leave(*_):
        with contextlib.suppress(Exception):
            resource.__exit__(None, None, None)
        return False

    return leave


def _passes_through_repo(exception) -> bool:
    prefix = os.path.realpath(boot.REPO) + os.sep
    seen = set()
    while exception is not None and id(exception) not in seen:
        seen.add(id(exception))
        for frame, _ in traceback.walk_tb(exception.__traceback__):
            if os.path.realpath(frame.f_code.co_filename).startswith(prefix):
                return True
        exception = exception.__cause__ or exception.__context__
    return False


# --- JSON with bytes and lone surrogates ----------------------------------------------------------------------------


def to_json(value):
    if isinstance(value, (bytes, bytearray)):
        return {'$b': bytes(value).hex()}
    if isinstance(value, dict):
        return {'$d': [[to_json(k), to_json(v)] for k, v in value.items()]} if any(
            not isinstance(k, str) or k.startswith('$') for k in value
        ) else {k: to_json(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [to_json(v) for v in value]
    return value


def from_json(value):
    if isinstance(value, dict):
        if '$b' in value:
            return bytes.fromhex(value['$b'])
        if '$d' in value:
            return {from_json(k): from_json(v) for k, v in value['$d']}
        return {k: from_json(v) for k, v in value.items()}
    if isinstance(value, list):
        return [from_json(v) for v in value]
    return value


def dumps(value, **kwargs):
    return json.dumps(to_json(value), sort_keys=True, **kwargs)


def digest(value) -> str:
    return hashlib.sha1(dumps(value).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def rmtree(path):
    def onerror(func, p, _):
        with contextlib.suppress(OSError):
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            func(p)

    shutil.rmtree(path, onerror=onerror)


# --- executing one case ---------------------------------------------------------------------------------------------


def run_case(sub: Sub, case, scratch: str, tier: str) -> Ctx:
    """Runs one case in a fresh folder. Raises Violation, Skip, or a harness error."""
    tmp = tempfile.mkdtemp(prefix='case-', dir=scratch)
    ctx = Ctx(tmp, tier)
    home = os.path.join(tmp, '.home')
    tmpdir = os.path.join(tmp, '.tmp')
    os.mkdir(home)
    os.mkdir(tmpdir)
    os.environ['HOME'] = home
    os.environ['TMPDIR'] = tmpdir
    tempfile.tempdir = tmpdir
    cwd = os.getcwd()

    def on_cpu(_signum, _frame):
        raise NotTerminated(f'used more than {CPU_LIMIT_PER_CASE} s of CPU time')

    def on_wall(_signum, _frame):
        raise NotTerminated(f'did not terminate within {WALL_LIMIT_PER_CASE} s')

    signal.signal(signal.SIGPROF, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT_PER_CASE)
    try:
        try:
            sub.run(case, ctx)
        finally:
            ctx.stack.close()
    except (Violation, Skip, HarnessError):
        raise
    except NotTerminated as exception:
        raise Violation(f'Not terminated: {exception}', key='not-terminated') from exception
    except (MemoryError, RecursionError) as exception:
        raise Violation(f'{type(exception).__name__}: {exception}') from exception
    except Exception as exception:
        if _passes_through_repo(exception):
            trace = ''.join(traceback.format_exception(exception))[-2500:]
            raise Violation(f'Unexpected {type(exception).__name__}: {brief(str(exception))}\n{trace}') from exception
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        tempfile.tempdir = None
        rmtree(tmp)
    return ctx


# --- worker ---------------------------------------------------------------------------------------------------------


class Worker:
    def __init__(self, module, index, count, tier, seed, scratch, only=None):
        self.module, self.index, self.count, self.tier, self.seed = module, index, count, tier, seed
        self.scratch = scratch
        self.only = only
        self.result = {
            'evaluations': 0, 'skipped': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'violations': [],
            'errors': [], 'budget_exhausted': False, 'subs': {},
        }
        self.deadline = time.monotonic() + float(os.environ.get('VP_BUDGET', BUDGET[tier]))
        self._nontrivial = set()

    def examples(self, sub: Sub) -> int:
        total = sub.quick if self.tier == 'quick' else sub.thorough
        total = max(1, int(total * float(os.environ.get('VP_SCALE', '1'))))
        return total // self.count + (1 if self.index < total % self.count else 0)

    def record(self, sub, case, ctx):
        result = self.result
        result['evaluations'] += 1
        result['subs'][sub.name] = result['subs'].get(sub.name, 0) + 1
        for label in ctx.labels:
            label = f'{sub.name}: {label}'
            result['labels'][label] = result['labels'].get(label, 0) + 1
        if ctx.is_nontrivial:
            key = digest([sub.name, case])
            if key not in self._nontrivial:
                self._nontrivial.add(key)
                per_sub = [s for s in result['samples'] if s['sub'] == sub.name]
                text = dumps(case)
                if len(per_sub) < 2 and len(text) < 4000:
                    result['samples'].append({'sub': sub.name, 'case': to_json(case), 'labels': sorted(ctx.labels)})

    def run(self, partial=None):
        for sub in self.module.SUBS:
            if self.only and sub.name not in self.only:
                continue
            count = self.examples(sub)
            if count:
                self.run_sub(sub, count)
                if partial:
                    self.result['nontrivial'] = sorted(self._nontrivial)
                    with open(partial + '.tmp', 'w', encoding='utf-8') as file:
                        json.dump(self.result, file)
                    os.rename(partial + '.tmp', partial)
        self.result['nontrivial'] = sorted(self._nontrivial)
        return self.result

    def run_sub(self, sub: Sub, count: int):
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings

        state = {'first_failure': None, 'best': None}
        current = os.path.join(self.scratch, 'current.json')

        def body(case):
            now = time.monotonic()
            if state['first_failure'] is None and now > self.deadline:
                self.result['budget_exhausted'] = True
                return
            if state['first_failure'] is not None and now - state['first_failure'] > SHRINK_SECONDS:
                raise _Stop
            text = dumps([sub.name, case])
            with open(current, 'w', encoding='utf-8', errors='surrogatepass') as file:
                file.write(text)
            try:
                ctx = run_case(sub, case, self.scratch, self.tier)
            except Skip:
                self.result['skipped'] += 1
                return
            except Violation as violation:
                if state['first_failure'] is None:
                    state['first_failure'] = time.monotonic()
                if state['best'] is None or len(text) <= state['best'][0]:
                    state['best'] = (len(text), from_json(to_json(case)), str(violation), violation.key)
                if violation.key == 'not-terminated':
                    raise _Stop from None  # Shrinking would take too long.
                raise
            except Exception:
                self.result['errors'].append(traceback.format_exc()[-4000:] + '\ncase: ' + text[:3000])
                raise _Stop from None
            self.record(sub, case, ctx)

        seed = int.from_bytes(
            hashlib.sha256(f'{self.seed}/{self.module.ID}/{sub.name}/{self.index}'.encode()).digest()[:8], 'big'
        )
        test = hypothesis.seed(seed)(
            settings(
                max_examples=count,
                database=None,
                deadline=None,
                print_blob=False,
                report_multiple_bugs=False,
                verbosity=Verbosity.quiet,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
            )(given(sub.strategy())(body))
        )
        try:
            test()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as exception:  # Flaky and the like
            if state['best'] is None:
                self.result['errors'].append(
                    f'{type(exception).__name__}: {exception}\n' + traceback.format_exc()[-4000:]
                )
        if state['best']:
            _, case, message, key = state['best']
            self.result['violations'].append({'sub': sub.name, 'case': to_json(case), 'message': message, 'key': key})


def worker_main(module, index, count, tier, seed, scratch, output, only):
    os.makedirs(scratch)
    log = os.open(os.path.join(scratch, 'output.log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(log, 1)
    os.dup2(log, 2)
    sys.stdout = os.fdopen(1, 'w', buffering=1, errors='backslashreplace', closefd=False)
    sys.stderr = os.fdopen(2, 'w', buffering=1, errors='backslashreplace', closefd=False)
    os.setpgid(0, 0)
    worker = Worker(module, index, count, tier, seed, scratch, only)
    try:
        result = worker.run(output + '.partial')
    except BaseException:
        result = worker.result
        result['errors'].append(traceback.format_exc()[-4000:])
    with open(output + '.tmp', 'w', encoding='utf-8') as file:
        json.dump(result, file)
    os.rename(output + '.tmp', output)
    sys.stdout.flush()
    os._exit(0)


# --- replaying ------------------------------------------------------------------------------------------------------


def find_sub(module, name):
    for sub in module.SUBS:
        if sub.name == name:
            return sub
    raise HarnessError(f'{module.ID} has no sub-check named {name}')


def replay_in_child(module, document, scratch, tier, timeout=KILL_AFTER):
    """Runs one stored case in a forked child. Returns ('ok'|'violation'|'skip'|'error'|'crash', message)."""
    read_fd, write_fd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read_fd)
        code, message = 'error', ''
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            os.setpgid(0, 0)
            os.makedirs(scratch, exist_ok=True)
            try:
                run_case(find_sub(module, document['sub']), from_json(document['case']), scratch, tier)
                code = 'ok'
            except Violation as violation:
                code, message = 'violation', str(violation)
            except Skip as skip:
                code, message = 'skip', str(skip)
            except BaseException:
                code, message = 'error', traceback.format_exc()
        finally:
            os.write(write_fd, json.dumps([code, message[-6000:]]).encode())
            os._exit(0)
    os.close(write_fd)
    data = b''
    end = time.monotonic() + timeout
    import select

    while time.monotonic() < end:
        ready, _, _ = select.select([read_fd], [], [], 1)
        if ready:
            chunk = os.read(read_fd, 65536)
            if not chunk:
                break
            data += chunk
    os.close(read_fd)
    with contextlib.suppress(OSError):
        os.killpg(pid, signal.SIGKILL)
    with contextlib.suppress(OSError):
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if data:
        return tuple(json.loads(data))
    return 'crash', f'process ended with status {status} without an answer'


# --- main -----------------------------------------------------------------------------------------------------------


def load_known():
    path = os.path.join(boot.VERIF, 'known_findings.json')
    with open(path, encoding='utf-8') as file:
        return json.load(file)


def write_replay(pid, violation):
    folder = os.path.join(boot.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{violation['sub']}-{digest(violation['case'])}.json")
    with open(path, 'w', encoding='utf-8') as file:
        json.dump({'property': pid, **violation}, file, indent=1)
    return path


def main(argv):
    import argparse

    parser = argparse.ArgumentParser()
    parser.add_argument('id')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    parser.add_argument('--replay')
    parser.add_argument('--sub', action='append')
    parser.add_argument('--workers', type=int, default=WORKERS)
    parser.add_argument('--labels', action='store_true')
    args = parser.parse_args(argv)

    start = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f'vp-{args.id}-', dir=boot.scratch_parent())
    os.environ['LC_ALL'] = os.environ['LANG'] = 'C.UTF-8'
    os.environ['TZ'] = 'XYZ3:30'  # 3.5 hours west of UTC, so that confusing local time and UTC shows
    time.tzset()
    os.environ.pop('XDG_CACHE_HOME', None)
    os.environ.pop('RATARMOUNT_INDEX_TMPDIR', None)
    sys.pycache_prefix = os.path.join(scratch, 'pycache')
    os.environ['PYTHONPYCACHEPREFIX'] = sys.pycache_prefix
    os.environ['HOME'] = scratch
    exit_code = 2
    try:
        exit_code = _main(args, scratch, start)
    finally:
        rmtree(scratch)
    return exit_code


def _main(args, scratch, start):
    boot.setup()
    import hypothesis  # noqa: F401  # import before forking

    module = importlib.import_module(f'checks.{args.id}')
    assert module.ID == args.id

    if args.replay:
        with open(args.replay, encoding='utf-8') as file:
            document = json.load(file)
        code, message = replay_in_child(module, document, os.path.join(scratch, 'replay'), args.tier)
        print(f'replay: {code}\n{message}')
        if code in ('violation', 'crash'):
            print(f'VIOLATION property={args.id} replay={os.path.abspath(args.replay)}')
            return 1
        return 0 if code in ('ok', 'skip') else 2

    violations, errors = [], []
    known_lines = []
    evaluations = 0
    corpus_count = 0

    # 1. Known findings: must still fail (else the entry is outdated, which is only worth a note).
    known = load_known()
    for entry in known.get('findings', []):
        if entry['property'] != args.id:
            continue
        with open(os.path.join(boot.VERIF, entry['case']), encoding='utf-8') as file:
            document = json.load(file)
        code, message = replay_in_child(module, document, os.path.join(scratch, 'known'), args.tier)
        evaluations += 1
        if code in ('violation', 'crash'):
            known_lines.append(f"KNOWN-FINDING: property={args.id} {entry['summary']}")
        elif code == 'error':
            errors.append(f"known finding {entry['case']}: {message}")
        else:
            print(f"note: known finding {entry['case']} does not fail any more ({code})")

    # 2. Regression corpus: shrunk cases of earlier failures (fixed defects, planted bugs).
    corpus = os.path.join(boot.VERIF, 'corpus', args.id)
    if os.path.isdir(corpus) and not args.sub:
        for name in sorted(os.listdir(corpus)):
            if not name.endswith('.json'):
                continue
            with open(os.path.join(corpus, name), encoding='utf-8') as file:
                document = json.load(file)
            code, message = replay_in_child(module, document, os.path.join(scratch, 'corpus'), args.tier)
            evaluations += 1
            corpus_count += 1
            if code in ('violation', 'crash'):
                violations.append({'sub': document['sub'], 'case': document['case'], 'message': message, 'key': None})
            elif code == 'error':
                errors.append(f'corpus case {name}: {message}')

    # 3. Generated cases.
    outputs = []
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(args.workers):
        output = os.path.join(scratch, f'result-{i}.json')
        outputs.append(output)
        pid = os.fork()
        if pid == 0:
            try:
                worker_main(
                    module, i, args.workers, args.tier, args.seed, os.path.join(scratch, f'w{i}'), output, args.sub
                )
            finally:
                os._exit(3)
        pids[pid] = i
    statuses = {}
    try:
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if not pid:
                time.sleep(0.05)
                for stuck, i in pids.items():
                    with contextlib.suppress(OSError):
                        current = os.path.join(scratch, f'w{i}', 'current.json')
                        if time.time() - os.stat(current).st_mtime > KILL_AFTER:
                            os.killpg(stuck, signal.SIGKILL)
            if pid in pids:
                statuses[pids.pop(pid)] = status
                with contextlib.suppress(OSError):
                    os.killpg(pid, signal.SIGKILL)
    finally:
        for pid in pids:
            with contextlib.suppress(OSError):
                os.killpg(pid, signal.SIGKILL)
            with contextlib.suppress(OSError):
                os.kill(pid, signal.SIGKILL)

    nontrivial, labels, samples, subs = set(), {}, [], {}
    skipped, exhausted = 0, False
    for i, output in enumerate(outputs):
        if not os.path.exists(output):
            # The process died. If its current case reproduces that, then this is a crash caused by the input.
            current = os.path.join(scratch, f'w{i}', 'current.json')
            text = ''
            if os.path.exists(current):
                with open(current, encoding='utf-8', errors='surrogatepass') as file:
                    text = file.read()
            # A hanging process takes long to replay; one is enough.
            if not any(v['message'].startswith('Process crashed') for v in violations):
                code, message = 'error', ''
                if text and os.WIFSIGNALED(statuses[i]):
                    name, case = json.loads(text)
                    document = {'sub': name, 'case': case}
                    code, message = replay_in_child(module, document, os.path.join(scratch, 'crash'), args.tier)
                if code in ('crash', 'violation'):
                    violations.append({**document, 'message': f'Process crashed. {message}', 'key': None})
                else:
                    errors.append(f'worker {i} ended with status {statuses.get(i)} without result; case: {text[:2000]}')
            output += '.partial'
            if not os.path.exists(output):
                continue
        with open(output, encoding='utf-8') as file:
            result = json.load(file)
        evaluations += result['evaluations']
        skipped += result['skipped']
        exhausted = exhausted or result['budget_exhausted']
        nontrivial.update(result['nontrivial'])
        errors.extend(result['errors'])
        violations.extend(result['violations'])
        for key, value in result['labels'].items():
            labels[key] = labels.get(key, 0) + value
        for key, value in result['subs'].items():
            subs[key] = subs.get(key, 0) + value
        for sample in result['samples']:
            if sum(s['sub'] == sample['sub'] for s in samples) < 3:
                samples.append(sample)

    wall = time.monotonic() - start
    evidence = {
        'property': args.id,
        'tier': args.tier,
        'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': ' '.join(module.RULE.split()),
            'samples': samples,
            'cases_per_subcheck': subs,
            'labels': dict(sorted(labels.items())),
            'excluded_by_construction': skipped,
            'regression_cases': corpus_count,
            'known_findings_confirmed': len(known_lines),
            'time_budget_hit': exhausted,
        },
        'assumptions': list(getattr(module, 'ASSUMES', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if not args.sub:
        os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(boot.VERIF, 'evidence', f'{args.id}.json')
        with open(path + '.tmp', 'w', encoding='utf-8') as file:
            json.dump(evidence, file, indent=1)
        os.replace(path + '.tmp', path)

    if args.labels:
        print(json.dumps(evidence['coverage']['labels'], indent=1))
    for line in known_lines:
        print(line)
    print(
        f'{args.id}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {skipped} excluded, '
        f'{len(violations)} violations, {len(errors)} errors, {wall:.1f} s' + (' (time budget hit)' if exhausted else '')
    )
    if args.labels:
        kinds = {}
        for violation in sorted(violations, key=lambda v: len(json.dumps(v['case']))):
            message = violation['message']
            last = message.strip().rsplit('\n', 1)[-1]
            kinds.setdefault((violation['sub'], *(re.sub('[0-9]+', '', text)[:40] for text in (message, last))), violation)
        for violation in kinds.values():
            message = violation['message']
            print(f"  * [{violation['sub']}] {message[:400]}\n    ... {message[-400:]}\n    {json.dumps(violation['case'])[:1500]}")
        for error in errors:
            print('    error:', error[-1500:])
    if violations:
        # Smallest first, one line per distinct sub-check.
        violations.sort(key=lambda v: (v['sub'], len(json.dumps(v['case']))))
        shown = set()
        for violation in violations:
            if violation['sub'] in shown:
                continue
            shown.add(violation['sub'])
            path = write_replay(args.id, violation)
            if not args.labels:
                print(f"  [{violation['sub']}] {violation['message'][:3000]}")
            print(f'VIOLATION property={args.id} replay={path}')
        return 1
    if errors:
        for error in errors[:3]:
            print('HARNESS ERROR:', error)
        return 2
    return 0
