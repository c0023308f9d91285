// Search, replay and evidence shared by the checks of the page.
import { spawn, spawnSync } from 'node:child_process';
import { createRequire } from 'node:module';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const require = createRequire('/opt/veriftools/node/package.json');
export const fc = require('fast-check');
export const esbuild = require('esbuild');

export const here = path.dirname(fileURLToPath(import.meta.url));
const root = process.env.VERIF_ROOT || path.dirname(here);
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED || 1) | 0;
const start = Date.now();

export const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'front-'));
export const finish = code => {
  fs.rmSync(scratch, { recursive: true, force: true });
  process.exit(code);
};

export const equalBytes = (what, found, expected) => {
  if (!(found instanceof Uint8Array || found instanceof Uint8ClampedArray)) throw new Error(`${what}: no bytes but ${Object.prototype.toString.call(found)}`);
  if (found.length !== expected.length) throw new Error(`${what}: ${found.length} bytes instead of ${expected.length}`);
  for (let i = 0; i < found.length; i++) {
    if (found[i] !== expected[i]) throw new Error(`${what}: byte ${i} is ${found[i]}, not ${expected[i]}`);
  }
};
export const equal = (what, found, expected) => {
  if (!Object.is(found, expected)) throw new Error(`${what} is ${String(found)}, not ${String(expected)}`);
};

export class Listeners {
  constructor() {
    this.listeners = {};
  }
  addEventListener(name, f) {
    (this.listeners[name] = this.listeners[name] || []).push(f);
  }
  removeEventListener(name, f) {
    this.listeners[name] = (this.listeners[name] || []).filter(g => g !== f);
  }
  emit(name) {
    const event = { type: name, target: this, currentTarget: this };
    if (this['on' + name]) this['on' + name](event);
    (this.listeners[name] || []).forEach(f => f.call(this, event));
  }
}

const describe = error => String(error && error.message ? error.message : error).slice(0, 500);

export const run = async (property, rule, assumptions, subs) => {
// ------------------------------------------------------------------ replay
const at = process.argv.indexOf('--replay');
if (at >= 0) {
  const file = process.argv[at + 1];
  const saved = JSON.parse(fs.readFileSync(file, 'utf8'));
  try {
    await subs[saved.failure.sub].check(saved.failure.case);
    console.log('replay: the property holds on this case');
    finish(0);
  } catch (error) {
    console.log(`replay: ${describe(error)}\nVIOLATION property=${property} replay=${file}`);
    finish(1);
  }
}

// ------------------------------------------------------------------ a process of its own for the search
// A page which loops or waits for ever takes its process with it; the case under way is then tried again alone.
if (!process.env.FRONT_CASE) {
  const note = path.join(scratch, 'case.json');
  const child = spawn(process.execPath, process.argv.slice(1), { stdio: 'inherit', env: { ...process.env, FRONT_CASE: note, TMPDIR: scratch } });
  let ended = null;
  child.on('exit', (code, signal) => (ended = { code, signal }));
  let stuck = false;
  while (!ended) {
    await new Promise(resolve => setTimeout(resolve, 100));
    const age = fs.existsSync(note) ? Date.now() - fs.statSync(note).mtimeMs : 0;
    if (age > 120000 && !stuck) {
      stuck = true;
      child.kill('SIGKILL');
    }
  }
  if (!stuck && [0, 1, 2].includes(ended.code)) finish(ended.code);
  if (fs.existsSync(note)) {
    const failure = { ...JSON.parse(fs.readFileSync(note, 'utf8')), message: stuck ? 'the case does not end' : `the process ended with ${ended.signal || ended.code}` };
    fs.mkdirSync(path.join(root, 'replays'), { recursive: true });
    const file = path.join(root, 'replays', `${property}-${failure.sub}.json`);
    fs.writeFileSync(file, JSON.stringify({ property, tier, seed, failure }, null, 2));
    const again = spawnSync(process.execPath, [process.argv[1], '--replay', file], { stdio: 'ignore', timeout: 120000, killSignal: 'SIGKILL', env: { ...process.env, TMPDIR: scratch } });
    if (again.status !== 0 && again.status !== 2) {
      console.log(`${failure.sub}: ${failure.message}`);
      console.log(`VIOLATION property=${property} replay=${file}`);
      finish(1);
    }
  }
  console.log(`ERROR property=${property} the search ended with ${ended.signal || ended.code}`);
  finish(2);
}

// ------------------------------------------------------------------ search
const reports = [];
const samples = [];
const failures = [];
for (const [name, sub] of Object.entries(subs)) {
  const began = Date.now();
  const seen = new Set();
  let evaluations = 0;
  let own = 0;
  const result = await fc.check(
    fc.asyncProperty(sub.arbitrary, async value => {
      evaluations++;
      if (!sub.trivial(value)) {
        const text = JSON.stringify(value);
        if (!seen.has(text)) {
          seen.add(text);
          if (own < 2) {
            own++;
            samples.push({ sub: name, case: text.length <= 600 ? value : text.slice(0, 600) + '...' });
          }
        }
      }
      fs.writeFileSync(process.env.FRONT_CASE, JSON.stringify({ sub: name, case: value }));
      await sub.check(value);
    }),
    { numRuns: tier === 'thorough' ? sub.thorough : sub.quick, seed: seed * 7919 + name.length, endOnFailure: false, interruptAfterTimeLimit: 150000 },
  );
  reports.push({ name, evaluations, distinct_nontrivial: seen.size, seconds: (Date.now() - began) / 1000 });
  if (result.failed) {
    failures.push({ sub: name, case: result.counterexample[0], message: describe(result.errorInstance || result.error) });
  }
}

const evidence = {
  property,
  tier,
  seed,
  level: 'exploration',
  coverage: {
    evaluations: reports.reduce((sum, r) => sum + r.evaluations, 0),
    distinct_nontrivial: reports.reduce((sum, r) => sum + r.distinct_nontrivial, 0),
    rule,
    samples,
    sub_checks: reports,
  },
  assumptions,
  wall_s: (Date.now() - start) / 1000,
  violations: failures.length,
};
fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
fs.writeFileSync(path.join(root, 'evidence', `${property}.json`), JSON.stringify(evidence, null, 2) + '\n');
for (const r of reports) {
  console.log(`${property} ${r.name}: ${r.evaluations} cases, ${r.distinct_nontrivial} distinct non-trivial, ${r.seconds.toFixed(1)}s`);
}
if (failures.length > 0) {
  fs.mkdirSync(path.join(root, 'replays'), { recursive: true });
  for (const failure of failures) {
    const file = path.join(root, 'replays', `${property}-${failure.sub}.json`);
    fs.writeFileSync(file, JSON.stringify({ property, tier, seed, failure }, null, 2));
    console.log(`${failure.sub}: ${failure.message}`);
    console.log(`VIOLATION property=${property} replay=${file}`);
  }
  finish(1);
}
console.log(`OK property=${property}`);
finish(0);
};
