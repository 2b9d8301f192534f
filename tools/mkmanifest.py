import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
src = open('/verif/harness/src/props/mod.rs').read()
claimed = set(re.findall(r'"(C\d\d)" => Box::new', src))
ORACLE = {
 'C01': 'random grammars x random/enumerated token sequences vs an Earley recogniser',
 'C02': 'random typed grammars x sentences vs evaluation of the unique Earley derivation tree',
 'C03': 'random grammars (plain, ambiguous, with precedence) vs an independent LALR(1) construction',
 'C04': 'random operator grammars x expressions vs an operator-precedence oracle and a precedence-resolved LALR(1) reference machine',
 'C05': 'viable prefixes x every non-viable continuation vs an Earley recogniser',
 'C06': 'random error-symbol grammars x corrupted sequences vs a reference recovery machine',
 'C07': 'random grammars x corrupted sequences vs a reference drop-and-throttle machine and Earley trees of the filtered input',
 'C08': 'random grammars x error points; expected list vs tokens really acceptable in the reference machine',
 'C09': 'random grammars x stack limits x stack types x inputs around the limit vs reference stack depths',
 'C10': 'random fallback grammars x token sequences vs reference machine, plus metamorphic substitution',
 'C11': 'random wildcard grammars x token sequences vs reference machine, plus metamorphic substitution',
 'C12': 'differential: sugared specification vs its written-out expansion, on random sequences',
 'C13': 'random type assignments: compile success and values vs Earley tree evaluation',
 'C14': 'failure injected at every action/handler call, then further use of the parser, vs reference machine',
 'C15': 'random interleavings/threads of several instances vs each instance run alone',
 'C16': 'metamorphic: permuted, %verbose and re-expanded specifications behave alike',
 'C17': 'large generated grammars around the 128/256/32768 table boundaries vs reference machine',
 'C18': 'rule-breaking mutations of valid specifications and token soup through the macro',
 'C19': 'stateful call histories with extra/extra_mut/into_extra vs reference machine, with live-object counting',
 'C20': 'random extra-token grammars: accessors and bound values vs reference machine',
 'C22': 'random subsets of the error directives left out x failure histories vs the reference machine with the documented defaults; missing Default must not compile',
 'C23': 'metamorphic: specifications with all symbols and aliases renamed from a pool of hostile identifiers behave alike',
 'C24': 'differential: the text printed for %verbose or in the conflict error, read back, vs the reference LALR(1) automaton',
 'C25': 'specifications with one mistake in a known declaration; the primary spans of the compiler errors vs the lines of that declaration',
 'C26': 'metamorphic: the same specification through other paths, delimiters, scopes and macro_rules macros (token trees and fragments) behaves alike',
 'C27': 'metamorphic: the same specification expanded several times, in several compiler runs; expansion text, dump, messages and places must be equal',
 'C28': 'generated specifications next to a caller derived from the specification that states every type, in crates that deny warnings; the printed expansion vs the documented items and methods',
 'C29': 'generated specifications and call histories over payloads that count their living values vs the payloads on the reference machine\'s stack',
 'C21': 'generated module/include/Token/Parser customisations, std and no_std: compile and run',
}
NOTE = ('Generated-input search: no violation on the explored cases (counts in the evidence file). Trusts rustc, the generators '
        'and the reference oracles in harness/src, which share no code with pomelo and are cross-checked by `check.sh pv selftest`.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
            evidence_file=f'evidence/{i}.json', technique='property-based testing: ' + ORACLE[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=na,
  notes='No hooks in /repo: everything is observed through the public macro, its expansion and the generated API.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
