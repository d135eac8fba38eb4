"""Shared machinery of the checks: TLC runs, code-under-test runs, verdicts.

A check is three kinds of step:

  model()    TLC explores a design module exhaustively (invariants/properties).
  generate() TLC writes the cases / behaviours which the harness replays.
  execute()  a harness process drives the code in /repo and records a trace.
  judge()    TLC reads the trace and decides every line with the operators of
             the same specification; the verdict is total and names clauses.

Exit status: 0 (held), 1 (VIOLATION line printed), 2 (machinery failure).
"""
import json
import os
import re
import shutil
import socket
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CP = ('/opt/veriftools/tla/tla2tools.jar:'
      '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
  pass


def code_env(devices=1, extra=None):
  """Environment in which the code under test runs."""
  env = {
      'HOME': '/root', 'LANG': 'C.UTF-8',
      'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:'
              '/usr/bin:/sbin:/bin',
      'PYTHONPATH': ':'.join([
          REPO, os.path.join(VERIF, 'stubs'), VERIF,
          os.path.join(VERIF, 'harness')]),
      'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
      'JAX_PLATFORMS': 'cpu', 'CUDA_VISIBLE_DEVICES': '',
      'TF_CPP_MIN_LOG_LEVEL': '3', 'TF_ENABLE_ONEDNN_OPTS': '0',
      'NO_GCE_CHECK': 'true', 'GLOG_minloglevel': '3',
      'GRPC_VERBOSITY': 'NONE', 'ABSL_MIN_LOG_LEVEL': '3',
  }
  # Compilation dominates: the programs are tiny.
  env['XLA_FLAGS'] = ('--xla_backend_optimization_level=0 '
                      '--xla_llvm_disable_expensive_passes=true '
                      f'--xla_force_host_platform_device_count={devices}')
  for k in ('VERIF_SEED', 'VERIF_TIER', 'TMPDIR'):
    if k in os.environ:
      env[k] = os.environ[k]
  env.update(extra or {})
  return env


def free_port():
  with socket.socket() as s:
    s.bind(('127.0.0.1', 0))
    return s.getsockname()[1]


class Check:
  """One run of the check of one property."""

  def __init__(self, prop, tier, seed, level='model_checking'):
    self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
    self.t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    self.models = []          # exhaustive explorations
    self.states = 0
    self.transitions = 0
    self.traces = 0           # recorded executions judged
    self.events = 0           # trace lines judged
    self.samples = []
    self.notes = {}
    self.timing = {}
    self.violations = []
    self.known = []
    self.assumptions = []

  @property
  def quick(self):
    return self.tier != 'thorough'

  def path(self, name):
    return os.path.join(self.scratch, name)

  # -- TLC -----------------------------------------------------------------

  def _tlc(self, module, cfg_text, env=None, workers=1, timeout=600, extra=(),
           heap='4g'):
    meta = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
    cfg = os.path.join(meta, module + '.cfg')
    with open(cfg, 'w') as fp:
      fp.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', f'-Xmx{heap}',
           '-DTLA-Library=' + SPEC, f'-Djava.io.tmpdir={meta}', '-cp', CP,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg, *extra,
           os.path.join(SPEC, module + '.tla')]
    try:
      p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
      raise MachineryError(f'TLC timed out on {module}') from ex
    finally:
      pass
    out = '\n'.join(x for x in p.stdout.split('\n') if not x.startswith(
        ('Parsing file', 'Semantic proc', 'Linting of')))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode, out, gen, dis

  def model(self, module, cfg_text, workers=4, timeout=600, name=None,
            must_reach=()):
    """Exhaustively checks a design module; any error is a machinery error."""
    t = time.time()
    rc, out, gen, dis = self._tlc(module, cfg_text, workers=workers,
                                  timeout=timeout)
    if rc != 0:
      raise MachineryError(f'TLC rejects the design {module}:\n{out[-4000:]}')
    self.states += dis
    self.transitions += gen
    self.models.append({'module': module, 'config': name or module,
                        'distinct_states': dis, 'transitions': gen,
                        'seconds': round(time.time() - t, 1)})
    return out

  def model_many(self, module, cfgs, timeout=800, par=4):
    """Several configurations of a design module, concurrently.

    cfgs: list of (name, cfg_text)."""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
      list(ex.map(lambda c: self.model(module, c[1], workers=2,
                                       timeout=timeout, name=c[0]), cfgs))

  def generate(self, module, constants='', timeout=600, env=None):
    """TLC writes a JSON file (IOEnv.OUT); returned decoded."""
    self.ngen = getattr(self, 'ngen', 0) + 1
    out_path = self.path(f'gen{self.ngen}.json')
    cfg_text = ('INIT GenInit\nNEXT GenNext\nPOSTCONDITION Write\n'
                'CHECK_DEADLOCK FALSE\n')
    if constants:
      cfg_text += 'CONSTANTS ' + constants + '\n'
    e = {'OUT': out_path}
    e.update(env or {})
    rc, out, gen, dis = self._tlc(module, cfg_text, env=e, timeout=timeout)
    if rc != 0 or not os.path.exists(out_path):
      raise MachineryError(f'TLC cannot generate from {module}:\n'
                           f'{out[:3000]}\n...\n{out[-1000:]}')
    self.states += dis
    self.transitions += gen
    with open(out_path) as fp:
      return json.load(fp)

  # -- Code under test -----------------------------------------------------

  def execute(self, script, args=(), devices=1, timeout=600, out='trace.ndjson',
              env=None, cases=None, procs=1, shards=1):
    """Runs a harness; returns the list of trace records it wrote.

    A harness which dies or hangs is itself an observation: it yields a single
    record {'op': 'abort'} which every judge rejects.
    """
    t_start = time.time()
    assert procs == 1 or shards == 1
    # Shards: independent processes, each with a part of the work.
    sharded, procs = shards > 1, max(procs, shards)
    trace = self.path(out)
    if cases is not None:
      with open(self.path(out + '.cases'), 'w') as fp:
        json.dump(cases, fp)
      args = list(args) + ['--cases', self.path(out + '.cases')]
    last = ''
    for attempt in range(2):
      if os.path.exists(trace):
        os.remove(trace)
      port = free_port()
      work = tempfile.mkdtemp(prefix='work_', dir=self.scratch)
      ps, logs = [], []
      for i in range(procs):
        e = code_env(devices, env)
        e['VERIF_WORK'] = work
        e['VERIF_PORT'] = str(port)
        e['VERIF_PROC'] = str(i)
        e['VERIF_NPROC'] = str(procs)
        e['VERIF_SHARD'], e['VERIF_SHARDS'] = '0', '1'
        if sharded:
          e['VERIF_PROC'], e['VERIF_NPROC'] = '0', '1'
          e['VERIF_SHARD'], e['VERIF_SHARDS'] = str(i), str(procs)
          e['VERIF_WORK'] = os.path.join(work, str(i))
          os.makedirs(e['VERIF_WORK'])
        o = trace if procs == 1 else f'{trace}.{i}'
        if os.path.exists(o):
          os.remove(o)
        log = open(self.path(f'{out}.log{i}'), 'w')
        logs.append(log)
        ps.append(subprocess.Popen(
            [PY, os.path.join(VERIF, 'harness', script), '--out', o,
             '--seed', str(self.seed), '--tier', self.tier, *map(str, args)],
            env=e, cwd=work, stdout=log, stderr=subprocess.STDOUT,
            start_new_session=True))
      deadline = min(time.time() + timeout, self.t0 + (840 if self.quick else 10**6))
      why, grace = '', None
      while any(p.poll() is None for p in ps):
        if time.time() > deadline:
          why = 'timeout'
          break
        # A process which fails leaves the others waiting for it.
        if any(p.poll() for p in ps):
          grace = grace or time.time() + 3
          if time.time() > grace:
            break
        time.sleep(.02)
      for p in ps:
        if p.poll() is None:
          try:
            os.killpg(p.pid, 9)
          except OSError:
            pass
          p.wait()
      rcs = [p.returncode for p in ps]
      for log in logs:
        log.close()
      shutil.rmtree(work, ignore_errors=True)
      if not why and all(rc == 0 for rc in rcs):
        recs = []
        for i in range(procs):
          o = trace if procs == 1 else f'{trace}.{i}'
          with open(o) as fp:
            recs.append([json.loads(x) for x in fp])
        self.timing['exec ' + script] = round(time.time() - t_start, 1)
        if sharded:
          return [r for part in recs for r in part]
        return recs[0] if procs == 1 else recs
      tails = []
      for i in range(procs):
        with open(self.path(f'{out}.log{i}')) as fp:
          tails.append(fp.read()[-(1500 if procs == 1 else 700):])
      last = f'{script}: {why or rcs}\n' + '\n----\n'.join(tails)
      sys.stderr.write(last + '\n')
      if why == 'timeout':
        break
    rec = [{'op': 'abort', 'detail': last[-2500:]}]
    return rec if procs == 1 or sharded else [rec for _ in range(procs)]

  # -- Verdict -------------------------------------------------------------

  def judge(self, module, records, cfg_text=None, env=None, timeout=600,
            traces=None, chunk=4000, context=None, describe=None):
    """TLC decides every record; failing clauses become violations."""
    t_start = time.time()
    aborts = [r for r in records if r.get('op') == 'abort']
    for r in aborts:
      self.violate('the code under test aborted or did not terminate', r)
    records = [r for r in records if r.get('op') != 'abort']
    if not records:
      return []
    cfg = cfg_text or ('SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n'
                       'CONSTANT FailedIn <- FailedClauses\n')
    bad = []
    jobs = []
    for k in range(0, len(records), chunk):
      part = records[k:k + chunk]
      tp = self.path(f'judge_{module}_{k}.ndjson')
      vp = self.path(f'judge_{module}_{k}.verdict.json')
      with open(tp, 'w') as fp:
        for r in part:
          fp.write(json.dumps(r) + '\n')
      if os.path.exists(vp):
        os.remove(vp)
      jobs.append((k, part, tp, vp))

    def one(job):
      k, part, tp, vp = job
      e = {'TRACE': tp, 'VERDICT': vp}
      e.update(env or {})
      return self._tlc(module, cfg, env=e, timeout=timeout,
                       heap='3g'), job
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
      results = list(ex.map(one, jobs))
    for (rc, out, gen, dis), (k, part, tp, vp) in results:
      if not os.path.exists(vp):
        # The trace contains something the specification cannot even read.
        m = re.search(r'l = (\d+)', out)
        raise MachineryError(f'no verdict from {module}:\n{out[-5000:]}')
      with open(vp) as fp:
        v = json.load(fp)
      if v['n'] != len(part):
        raise MachineryError(f'{module}: judged {v["n"]} of {len(part)}\n'
                             f'{out[-3000:]}')
      self.states += dis
      self.transitions += gen
      self.events += len(part)
      for b in v['bad']:
        rec = part[b['line'] - 1]
        bad.append((rec, sorted(b['clauses'])))
      os.remove(tp)
      os.remove(vp)
    self.timing['judge ' + module] = round(time.time() - t_start, 1)
    self.traces += len(records) if traces is None else traces
    if records and len(self.samples) < 3:
      s = json.dumps(records[len(records) // 2])
      self.samples.append(s[:600])
    for rec, clauses in bad:
      self.violate('clauses ' + ','.join(clauses), rec,
                   context=context)
    return bad

  def violate(self, what, record, context=None):
    self.violations.append({'what': what, 'record': record,
                            'context': context})

  # -- End -----------------------------------------------------------------

  def apply_known_findings(self):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
      return
    with open(path) as fp:
      listed = [f for f in json.load(fp)['findings']
                if f['property'] == self.prop and f.get('status') == 'known']
    rest = []
    hit = {}
    for v in self.violations:
      for f in listed:
        m = f['match']
        rec = v['record']
        if all(rec.get(k) == x for k, x in m.get('record', {}).items()) and (
            v['what'] in m.get('what', [v['what']])):
          hit[f['id']] = f
          break
      else:
        rest.append(v)
    self.violations = rest
    self.known = list(hit.values())

  def finish(self):
    self.apply_known_findings()
    ev = {
        'property': self.prop, 'tier': 'thorough' if not self.quick else 'quick',
        'seed': self.seed, 'level': self.level,
        'coverage': {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'trace_events_judged': self.events,
            'models': self.models, 'seconds': self.timing,
            'samples': self.samples or ['-'],
            **self.notes},
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 2),
        'violations': len(self.violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fp:
      json.dump(ev, fp, indent=1)
    shutil.rmtree(self.scratch, ignore_errors=True)
    for f in self.known:
      print(f'KNOWN-FINDING: property={self.prop} {f["what"]}')
    if self.violations:
      rp = os.path.join(VERIF, 'evidence', self.prop + '.violation.json')
      with open(rp, 'w') as fp:
        json.dump(self.violations[:50], fp, indent=1)
      for v in self.violations[:5]:
        print(f'  {v["what"]}: {json.dumps(v["record"])[:700]}')
      print(f'VIOLATION property={self.prop} replay={rp}')
      return 1
    print(f'OK property={self.prop} states={self.states} '
          f'traces={self.traces} events={self.events} '
          f'wall={ev["wall_s"]}s {self.timing}')
    return 0
