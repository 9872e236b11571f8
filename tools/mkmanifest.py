import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
'C01':'deterministic simulation of clients, servers and a faulty network; every answer judged against the plaintext database',
'C02':'deterministic simulation with fault injection; every answer compared bit for bit with a fresh process that handles only that request',
'C03':'deterministic simulation of interleaved callers with adversarial entropy; phases of all expanded ciphertexts judged exactly',
'C04':'deterministic simulation with adversarial and failing entropy; refinement against a plaintext model',
'C05':'deterministic simulation of operation histories; refinement against a plaintext ring model after every step',
'C06':'deterministic simulation of operation histories; refinement against a plaintext automorphism and slot model',
'C07':'deterministic simulation of operation histories; refinement against a plaintext ring model',
'C08':'deterministic simulation of operation histories with worst-case entropy; exact noise against worst-case bounds and against the reported noise',
'C09':'deterministic simulation under controlled entropy: byte-wise dependence, distinctness over histories, retries and restarts',
'C10':'paired deterministic simulations under one entropy stream; differences compared with the difference of the encodings',
'C11':'deterministic simulation of several senders and recipients with adversarial and failing entropy',
'C12':'deterministic simulation under uniform, stuck, biased and failing entropy; bounds on every sample, shape under uniform entropy',
'C13':'deterministic simulation with a seeded preemptive scheduler; bit-for-bit comparison with solo runs in fresh processes',
'C14':'deterministic simulation of operation histories across levels; refinement against a plaintext model and exact rounding',
'C15':'deterministic simulation of histories with malformed requests injected; refusal required and later service judged',
'C16':'deterministic simulation with adversarial entropy; exact phases of switched polynomials against worst-case bounds',
'C17':'deterministic simulation of healthy tenants beside unusable parameter requests (configuration faults); refusal or working parameters required',
}
note='Seeded search over configurations, histories, schedules and faults, against the real code in a release build, a build with overflow and debug checks, and (where threads matter) a build that can be preempted at every basic block. Not a proof: it covers the sampled runs. Trusts the reference arithmetic and noise bounds in /verif/sim, and the substitution of rand\'s ThreadRng by the simulated entropy source.'
checks=[dict(property=p['id'],quick_cmd=f"./check.sh {p['id']} quick",thorough_cmd=f"./check.sh {p['id']} thorough",technique=tech[p['id']],level='exploration',level_note=note) for p in props if p['id'][0]=='C']
na={'N01':'modular arithmetic','N02':'the transform','N03':'residue conversion','N05':'substitution','N06':'the bit and wide-integer helpers'}
out=dict(version=1,setup_cmd='./check.sh build',
 hooks=dict(guard='--cfg onion_sim',enable='RUSTFLAGS="--cfg onion_sim" (set by check.sh); it only makes the private modules visible as onion_pir::sim_api',source_commits=[subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^sim hooks'],capture_output=True,text=True).stdout.split()[-1]]),
 checks=checks,
 not_applicable=[dict(property=k,reason=f'{v} is a pure function of its input: no schedule, clock, fault, entropy or second party can influence the result, so there is nothing for a simulator to decide; sampling inputs would be plain property-based testing. What depends on it is exercised through the claimed properties.') for k,v in na.items()],
 notes='Replay a violation with ./check.sh replay FILE. ./check.sh determinism COUNT runs seeds twice and compares the event logs.')
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1)
