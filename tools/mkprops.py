#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note, state=state or []))
S='sds/src/'
prop('C01','Concurrent, nested and repeated scans are isolated from each other',
 'Every scan reports the matches, the rewritten event and the paths that its own scanner\'s rules specify for its own event, exactly as if it were the only scan the process ever ran. This holds however scans of any scanners interleave on any number of threads, whether they are nested in the event callbacks of other scans, and whatever was scanned, created or dropped before. The event is only changed where a match action rewrites it, and the event implementation is told so beforehand.',
 ['schedules','histories','inputs','configurations'],
 'all interleavings of scans, builds and drops on several threads, all earlier histories, generated rule sets, scopes, keywords, validators, actions and events',
 'The tests scan with one scanner on one thread at a time and look at a handful of events; nothing runs two scans that share regexes, pooled caches, validators or statics at once.',
 [S+'scanner/mod.rs',S+'scanner/shared_pool.rs',S+'scanner/regex_rule/regex_cache_store.rs',S+'scanner/regex_rule/regex_store.rs',S+'scanner/regex_rule/compiled.rs',S+'scoped_ruleset/mod.rs',S+'proximity_keywords/mod.rs',S+'secondary_validation/mod.rs',S+'path.rs',S+'encoding.rs'],
 [('exclusive loan of pooled regex caches','scanner/shared_pool.rs'),('cache looked up by the regex\'s own key','scanner/regex_rule/regex_cache_store.rs'),('per-scan state passed down, never stored in the scanner','scanner/mod.rs, scoped_ruleset/mod.rs')],
 ['return value of scan','event after the scan','calls made on the event'],
 'Seeded schedules with forced preemption at memory accesses; every scan is compared with an independent reference model of the rules and events used.',
 [('regex caches','scratch memory lent to one scan at a time','regex_cache_store.rs'),('regex store','weak memo of compiled regexes','regex_store.rs')])
prop('C02','Building and matching depend only on the configuration, not on process history',
 'Whether a scanner can be created from a list of rules, the error otherwise, and everything the scanner then matches depend only on that configuration. Other rules or keywords in use, scanners created concurrently, scanners dropped earlier and internal clean-up of shared state make no difference.',
 ['schedules','histories','configurations'],
 'all orders and interleavings of building, using and dropping scanners with equal, similar or clashing patterns and keywords, including after more than a thousand other creations',
 'Tests create a few scanners in sequence; equal texts used as keyword and as pattern, races between two creations of the same pattern and clean-ups in between never occur.',
 [S+'scanner/regex_rule/regex_store.rs',S+'scanner/regex_rule/config.rs',S+'proximity_keywords/mod.rs',S+'validation.rs',S+'normalization',S+'scanner/mod.rs'],
 [('memo keyed by all that determines the regex','scanner/regex_rule/regex_store.rs'),('validation before memoisation','scanner/regex_rule/config.rs, validation.rs'),('clean-up keeps what is in use','regex_store.rs gc')],
 ['result of building a scanner','result of scan'],
 'Every build and scan of a random concurrent history is compared with the same build and scan alone in a fresh process.')
prop('C03','Long-running use does not accumulate memory',
 'A process that keeps creating, using and dropping scanners, including with patterns never seen before and with creations and scans that fail or panic, uses a bounded amount of memory: once scanners are dropped, what they needed is released after a bounded number of further creations. Repeating the same work never grows memory.',
 ['histories','schedules','fault_sequences'],
 'long histories of creation, scanning, dropping, failing and panicking, on one or more threads, with distinct or repeated patterns',
 'No test runs more than one clean-up cycle or looks at memory.',
 [S+'scanner/regex_rule/regex_store.rs',S+'scanner/regex_rule/regex_cache_store.rs',S+'scanner/shared_pool.rs',S+'scanner/mod.rs'],
 [('weak references and periodic clean-up','regex_store.rs'),('slots reused, caches replaced','regex_cache_store.rs')],
 ['live heap of the library'],
 'The simulator owns the allocator and counts live library bytes; bounded growth is decided per run over several clean-up cycles.')
prop('C04','Telemetry adds up once activity stops',
 'When no operation is in progress, the reported number of scanners equals creations minus deletions, counters equal what the scans and validations actually did (events scanned, matches, suppressed matches, per rule and label), and the gauges for regexes and their memory equal what is held and are never negative. This holds whatever the interleaving and however slow the exporter is.',
 ['schedules','histories'],
 'all interleavings of creations, drops, scans and clean-ups with slow metric exporters',
 'Tests read a metric after one sequential operation; no test updates a gauge from two threads.',
 [S+'stats.rs',S+'scanner/metrics.rs',S+'scanner/mod.rs',S+'scanner/regex_rule/regex_store.rs',S+'observability'],
 [('atomic counts behind the gauges','stats.rs'),('drop of a scanner counted once','scanner/mod.rs'),('labels merged per rule','scanner/metrics.rs, observability')],
 ['metrics recorder'],
 'A recording exporter (which can stall inside a call) is compared with totals recomputed from the history.')
prop('C05','Expiry of tokens is judged by the wall clock at the time of the scan',
 'A token that carries an expiry time is treated as expired exactly if that time has passed on the system clock when the scan looks at it. Clock jumps forwards or backwards, long-lived scanners and long-running processes do not make the scanner use an older or a cached time.',
 ['schedules','histories','fault_sequences'],
 'all clock jumps and passages of time before, during and between scans, expiry times around the current time',
 'Tests use tokens far from the current time and cannot move the clock.',
 [S+'secondary_validation/jwt_expiration_checker.rs',S+'secondary_validation/mod.rs'],
 [('reads the system clock per check','secondary_validation/jwt_expiration_checker.rs')],
 ['matches of rules with the expiry validator'],
 'The clock is simulated and jumps are injected; a match must agree with the clock somewhere within the scan.')
prop('C06','A panicking scan or creation harms only itself',
 'If a scan or the creation of a scanner panics, for example in the caller\'s event implementation or in a custom rule, only that call fails. All other scans, creations and drops, concurrent or later, with the same or other scanners, behave as if it had not happened.',
 ['schedules','fault_sequences','histories'],
 'panics at every callback of an event and in rule construction, in any interleaving with other work',
 'No test lets a scan panic, so poisoned locks, lost pool entries and half-updated caches are never seen.',
 [S+'scanner/shared_pool.rs',S+'scanner/mod.rs',S+'scanner/regex_rule/regex_store.rs',S+'scoped_ruleset/mod.rs'],
 [('pool entries returned on unwind','scanner/shared_pool.rs'),('locks not held over callbacks','regex_store.rs')],
 ['results of all other operations'],
 'Panics are injected at chosen callbacks; all other operations are checked against the reference model.')
prop('C07','The C interface contains failures and balances every resource',
 'No call through the C interface lets a panic cross it: malformed rules, events or handles-in-error give an error code or message, and the interface stays usable. Every buffer, string and handle it hands out is valid, is released by the documented release call, and repeating any sequence of calls leaks nothing; rules and lists may be released in any order, before or after the scanners made from them.',
 ['histories','fault_sequences','inputs','schedules'],
 'all sequences of valid and malformed calls on several threads',
 'The Go tests make a few well-formed calls and cannot see leaks or double frees on the Rust side.',
 ['sds-go/rust/src/native','sds-go/rust/src/lib.rs','sds-bindings-utils/src'],
 [('catch_unwind at each entry point','sds-go/rust/src/native/mod.rs'),('reference-counted handles','sds-go/rust/src/native/rule.rs, scanner.rs')],
 ['return values, error strings, heap'],
 'The real C entry points run under the simulated allocator, which detects double frees, foreign frees, dead buffers and growth.')
prop('C08','The C interface gives the results of the library',
 'A scan through the C interface returns exactly the matches, rewritten values and paths that the library itself returns for the decoded event, in an encoding the other side can decode. This holds for every event that can be encoded, concurrently with other calls.',
 ['inputs','schedules','configurations'],
 'generated events (nested, empty, non-ASCII, invalid UTF-8) and rules, concurrently on shared scanners',
 'The encoding is tested with a few fixed events, never concurrently and never against the library.',
 ['sds-bindings-utils/src/lib.rs','sds-go/rust/src/native/scan.rs','sds-bindings-utils/src/binary_encoding.rs'],
 [('binary event decoding','sds-bindings-utils'),('match encoding','sds-bindings-utils')],
 ['decoded response'],
 'An independent decoder turns the response into matches and an event, compared with the reference model and with the library.')
prop('C09','Validation verdicts follow from the replies received, under all network faults',
 'A match is reported valid only if a service reply for that very match said so, and invalid only if a reply said so and none said otherwise; otherwise it is an error or unchecked. Failed, slow, dropped or refused requests, replies for other matches, outages and any interleaving of requests never yield another verdict, and never make validation panic.',
 ['fault_sequences','schedules','configurations'],
 'all reply codes, delays, failures and outages per request, any interleaving of the requests of concurrent validations',
 'Tests use a mock server with immediate fixed replies.',
 [S+'match_validation/http_validator.rs',S+'match_validation/aws_validator.rs',S+'match_validation/match_status.rs',S+'scanner/mod.rs'],
 [('status per (match, endpoint) merged by precedence','match_validation/match_status.rs, http_validator.rs, aws_validator.rs')],
 ['status of each match'],
 'Requests go to simulated services with injected faults; verdicts are recomputed from the replies actually delivered.')
prop('C10','Validation neither loses, invents nor reorders matches',
 'Validating the matches of a scan returns exactly the same matches, changed only in their validation status, in an order that depends on nothing but the matches. This holds for any mixture of rules with and without validation, any faults and any concurrency.',
 ['fault_sequences','schedules','configurations'],
 'mixtures of validated and unvalidated rules, equal start positions, network faults, concurrent validations',
 'Tests validate matches of one kind of rule at a time and at distinct positions.',
 [S+'scanner/mod.rs',S+'match_validation'],
 [('matches regrouped per validator and put back','scanner/mod.rs validate_matches')],
 ['list of matches after validation'],
 'The list after validation is compared with the list before.')
prop('C11','Each credential is checked with the right request, once, and in bounded time',
 'For each match, validation sends exactly the configured request (endpoint, method, headers, credential, signature and date) to each configured endpoint, once, bounded by the configured timeout. No credential is sent anywhere else, and a validation takes no longer than its slowest requests allow.',
 ['fault_sequences','schedules','configurations'],
 'generated validator configurations, faults and concurrent validations',
 'Tests check one request of one configuration.',
 [S+'match_validation/http_validator.rs',S+'match_validation/aws_validator.rs',S+'match_validation/validator_utils.rs',S+'match_validation/config.rs'],
 [('request built per match and endpoint','http_validator.rs, aws_validator.rs'),('timeouts','config.rs')],
 ['requests seen by the simulated services'],
 'The simulated services record every request; requests are matched one to one with the matches, AWS signatures are recomputed.')
prop('C12','Nobody waits for another caller: no deadlock, no unbounded blocking',
 'A scan held up in its caller\'s callback, a slow creation or a validation waiting for the network never delays scans, creations or drops by other threads. Scanning or creating scanners from inside an event callback works. Every operation ends, for every rule that is accepted.',
 ['schedules','fault_sequences','configurations'],
 'scans held for an hour of simulated time, slow creations, slow networks, reentrant calls, any interleaving',
 'Tests are sequential; they cannot see a lock held over a callback or over a compilation.',
 [S+'scanner/shared_pool.rs',S+'scanner/regex_rule/regex_store.rs',S+'scanner/regex_rule/regex_cache_store.rs',S+'scanner/mod.rs',S+'validation.rs'],
 [('compilation outside the lock','regex_store.rs'),('pool grows instead of waiting','shared_pool.rs'),('empty matches rejected','validation.rs')],
 ['simulated time taken by each operation'],
 'Simulated time and lock waits are measured; the simulator reports deadlock and runaway executions.')
prop('C13','The outcome of a scan does not depend on the order in which fields are visited',
 'Two events that differ only in the order in which their fields are visited yield the same set of matches and the same rewritten values, with any scopes, exclusions and suppression of values found in excluded places. This includes the unspecified order of hash maps.',
 ['schedules','inputs','configurations'],
 'all orders of the fields of an event',
 'Tests use one order; hash maps randomise theirs per process.',
 [S+'scanner/mod.rs',S+'scoped_ruleset/mod.rs',S+'scanner/scope.rs',S+'simple_event.rs',S+'event.rs'],
 [('matches in excluded places are collected first and applied after all fields','scanner/mod.rs')],
 ['matches and event, for permuted events'],
 'The visit order is a simulated source of nondeterminism: permutations of each event and randomised hash seeds must agree.')
exec(open(os.path.join(V,'tools','more_props.py')).read()) if os.path.exists(os.path.join(V,'tools','more_props.py')) else None
NA = []
def na(id,title,statement,quant,why,files,reason):
    NA.append((dict(id=id,title=title,statement=statement,quantifier=dict(over=['inputs'],text=quant),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name='pure computation',where=', '.join(files))],hook_needed=None)),reason))
na('C30','Normalised patterns match what the documented syntax means',
 'The supported pattern syntax is translated to an equivalent pattern of the regex engine: for every accepted pattern and every text, both match the same ranges.',
 'all patterns and texts','tests sample a few hundred patterns',[S+'parser',S+'normalization'],
 'A pure function of one string; no schedule, clock, I/O or fault can influence it, so simulation would only be input fuzzing. (Patterns used in the simulated rule sets are checked incidentally.)')
na('C31','Complexity, depth and quantifier limits are enforced for every pattern',
 'Every pattern beyond the documented limits is rejected with the documented error, and no accepted pattern exceeds the limits.',
 'all patterns','tests try patterns next to the limits',[S+'validation.rs',S+'parser'],
 'A pure function of the pattern; nothing for a scheduler or fault injector to decide.')
na('C32','Checksum validators accept exactly the numbers with a correct checksum',
 'For every text, each checksum validator (card numbers, national ids and so on) accepts it if and only if the published checksum rule holds.',
 'all texts','tests sample numbers',[S+'secondary_validation'],
 'Pure functions of a short string. (Those used by the simulated rules are compared with independent implementations as part of the scan model, not claimed.)')
na('C33','Positions and replacements are right for every encoding',
 'Start, end and shift of every match in the rewritten text are correct in the unit of the event\'s encoding for every text and action.',
 'all texts and actions','tests sample texts',[S+'encoding.rs',S+'match_action.rs','sds-bindings-utils/src/binary_encoding.rs'],
 'Pure index arithmetic. (The scan model recomputes positions for UTF-8 and UTF-16 in the simulated runs, not claimed.)')
na('C34','The Go binding releases every native handle exactly once',
 'Go scanners and rules release their native handles exactly once, and never while a native call uses them.',
 'all Go schedules and garbage collections','the Go tests need the native library, which is not built here',['sds-go/go'],
 'The Go runtime\'s scheduler and collector cannot be put under the simulator here, and the native library the binding links is not built in this sandbox; its native side is covered by C07 and C08.')
def anchors(p):
    a=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']],observe_at=p['observe'],hook_needed=None)
    if p['state']: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in p['state']]
    return a
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['quant']),why_tests_cant=p['why'],anchors=anchors(p)))+'\n')
    for o,_ in NA: f.write(json.dumps(o)+'\n')
TRUST='Explores seeded schedules and faults; not exhaustive. Trusts the simulator (sequentially consistent memory, preemption at instrumented accesses), the reference model and the stubs listed in the evidence.'
M=dict(version=1,setup_cmd='bash check.sh build',
 checks=[dict(property=p['id'],quick_cmd=f"bash check.sh {p['id']} quick",thorough_cmd=f"bash check.sh {p['id']} thorough",technique='deterministic simulation with fault injection (seeded schedule and fault search)',level='exploration',level_note=p['note']+' '+TRUST,evidence_file=f"evidence/{p['id']}.json") for p in P],
 not_applicable=[dict(property=o['id'],reason=r) for o,r in NA],
 notes='No hooks in /repo: yield points come from compiler instrumentation (sanitizer coverage) added by sim/rustc-wrapper.sh, time, threads, locks, randomness and memory from interposed libc symbols and a global allocator, the network from a stand-in reqwest crate. The commits in /repo are fixes of defects found (known-findings.txt).')
json.dump(M,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
